//! A check runs in a child process which this one watches: code under test that never returns,
//! overflows its stack, exhausts memory or ends the process is a violation with a replay file too.
use serde_json::Value;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

use crate::run::Tier;

/// One case running longer than this hangs. The slowest cases take about a second.
pub const HANG: Duration = Duration::from_secs(100);
pub const SHRINK_HANG: Duration = Duration::from_secs(15);
pub const SHRINK: Duration = Duration::from_secs(90);
pub const SAVED: u32 = u32::MAX;
const SLOTS: usize = 64;
const SLOT: usize = 24;

/// Where a case comes from: facet (by its order in the property), shard, position in the shard.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Slot {
    pub facet: u32,
    pub shard: u32,
    pub index: u64,
}
impl Slot {
    pub fn parse(s: &str) -> Slot {
        let v: Vec<u64> = s.split(',').map(|x| x.parse().expect("slot")).collect();
        Slot { facet: v[0] as u32, shard: v[1] as u32, index: v[2] }
    }
    fn text(&self) -> String {
        format!("{},{},{}", self.facet, self.shard, self.index)
    }
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_millis() as u64)
}

fn slots() -> Option<&'static File> {
    static F: OnceLock<Option<File>> = OnceLock::new();
    F.get_or_init(|| std::env::var_os("PBT_SLOTS").and_then(|p| File::options().write(true).open(p).ok())).as_ref()
}

pub struct Entered(usize);
/// Publishes that thread `t` starts a case; dropping the result says that it ended.
pub fn enter(t: usize, facet: u32, shard: u32, index: u64) -> Entered {
    if let Some(f) = slots() {
        let mut b = [0u8; SLOT];
        b[0..4].copy_from_slice(&facet.to_le_bytes());
        b[4..8].copy_from_slice(&shard.to_le_bytes());
        b[8..16].copy_from_slice(&index.to_le_bytes());
        b[16..24].copy_from_slice(&now().to_le_bytes());
        let _ = f.write_at(&b, (t * SLOT) as u64);
    }
    Entered(t)
}
impl Drop for Entered {
    fn drop(&mut self) {
        if let Some(f) = slots() {
            let _ = f.write_at(&[0u8; SLOT], (self.0 * SLOT) as u64);
        }
    }
}

fn read_slots(f: &File) -> Vec<(Slot, Duration)> {
    let mut b = vec![0u8; SLOT * SLOTS];
    let n = f.read_at(&mut b, 0).unwrap_or(0);
    b[..n]
        .chunks_exact(SLOT)
        .filter_map(|c| {
            let facet = u32::from_le_bytes(c[0..4].try_into().unwrap());
            let shard = u32::from_le_bytes(c[4..8].try_into().unwrap());
            let index = u64::from_le_bytes(c[8..16].try_into().unwrap());
            let at = u64::from_le_bytes(c[16..24].try_into().unwrap());
            (facet > 0).then(|| (Slot { facet, shard, index }, Duration::from_millis(now().saturating_sub(at))))
        })
        .collect()
}

/// This program in a process group of its own, so that it can be ended with all it started.
fn this(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).process_group(0);
    c
}
fn end_group(child: &mut Child) {
    let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).stderr(Stdio::null()).status();
    let _ = child.kill();
    let _ = child.wait();
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("seiren-pbt-{}", child.id())));
}

fn wait(child: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(s) = child.try_wait().expect("wait for child") {
            return Some(s);
        }
        if t.elapsed() >= limit {
            end_group(child);
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

fn scratch(what: &str) -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    std::env::temp_dir().join(format!("seiren-pbt-{}-{}-{}", what, std::process::id(), n))
}

/// Replays a case in a process of its own; how it failed, if it did.
pub fn replay_fails(doc: &Value, limit: Duration) -> Option<String> {
    let p = scratch("case");
    std::fs::write(&p, doc.to_string()).expect("write case");
    let mut child = this(&["replay", p.to_str().unwrap()])
        .env_remove("PBT_SLOTS")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn replay");
    let s = wait(&mut child, limit);
    let _ = std::fs::remove_file(&p);
    match s {
        None => Some(format!("the case did not finish within {:?}", limit)),
        Some(s) if s.signal().is_some() => Some(format!("the process running the case was ended by signal {} (stack overflow, abort or out of memory)", s.signal().unwrap())),
        Some(s) if s.code() == Some(1) => Some("the case fails".into()),
        Some(s) if !matches!(s.code(), Some(0) | Some(2)) => Some(format!("the process running the case ended with status {:?}", s.code())),
        _ => None,
    }
}

pub fn check(id: &str) -> i32 {
    let started = Instant::now();
    let limit = Duration::from_secs(if crate::tier() == Tier::Quick { 840 } else { 8 * 3600 });
    // A crash or hang that no single case reproduces (a machine short of memory, say) is tried once more.
    for attempt in 0..2 {
        if attempt == 1 && started.elapsed() > limit / 3 {
            break;
        }
        let path = scratch("slots");
        std::fs::write(&path, vec![0u8; SLOT * SLOTS]).expect("write slots");
        let f = File::open(&path).expect("read slots");
        let mut child = this(&["run", id]).env("PBT_SLOTS", &path).stdin(Stdio::null()).spawn().expect("spawn");
        let mut nap = 1;
        let (suspects, what) = loop {
            if let Some(s) = child.try_wait().expect("wait for child") {
                match s.code() {
                    Some(c @ 0..=2) => {
                        let _ = std::fs::remove_file(&path);
                        return c;
                    }
                    _ => break (read_slots(&f).into_iter().map(|x| x.0).collect::<Vec<_>>(), format!("ended with {}", s)),
                }
            }
            if started.elapsed() > limit {
                end_group(&mut child);
                let _ = std::fs::remove_file(&path);
                eprintln!("ERROR: {} did not finish within {:?}", id, limit);
                return 2;
            }
            let late: Vec<Slot> = read_slots(&f).into_iter().filter(|x| x.1 > HANG).map(|x| x.0).collect();
            if !late.is_empty() {
                end_group(&mut child);
                break (late, format!("spent over {:?} on a case", HANG));
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(200);
        };
        let _ = std::fs::remove_file(&path);
        eprintln!("the run {}; looking for the case among {:?}", what, suspects);
        for s in suspects {
            let st = this(&["locate", id, &s.text()]).env_remove("PBT_SLOTS").stdin(Stdio::null()).status().expect("spawn");
            if st.code() == Some(1) {
                return 1;
            }
            if started.elapsed() > limit {
                break;
            }
        }
    }
    eprintln!("ERROR: the run of {} ended abnormally, and no single case reproduces it", id);
    2
}

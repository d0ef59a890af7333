//! C24, C25: other processes - the command-line tool and notebook output; and the worker they need.
use crate::gen::*;
use crate::pipe::*;
use crate::props_render::{mdoc, MDoc};
use crate::run::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use seiren::evcxr::{draw_erd, CustomDisplay, SVGOutput};
use seiren::geometry::{Point, Rect, Size};
use chumsky::error::SimpleReason;
use seiren::parser::Token;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

struct Out {
    status: ExitStatus,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}
/// Far more than any case needs, less than the supervisor's patience with a case.
const PATIENCE: std::time::Duration = std::time::Duration::from_secs(60);
fn run_with(c: Command, stdin: Option<&[u8]>) -> Out {
    run_onto(c, stdin, Stdio::piped(), Stdio::piped())
}
fn run_onto(mut c: Command, stdin: Option<&[u8]>, stdout: Stdio, stderr: Stdio) -> Out {
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(stdout).stderr(stderr);
    let mut ch = c.spawn().expect("cannot start a process");
    let pipe = ch.stdin.take();
    let (done, ended) = std::sync::mpsc::channel::<()>();
    let pid = ch.id().to_string();
    std::thread::scope(|s| {
        // A process that does not end is killed; its exit status says so.
        s.spawn(move || {
            if ended.recv_timeout(PATIENCE) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                let _ = Command::new("kill").args(["-9", &pid]).status();
            }
        });
        if let (Some(mut p), Some(b)) = (pipe, stdin) {
            s.spawn(move || {
                let _ = p.write_all(b);
            });
        }
        let o = ch.wait_with_output().expect("wait");
        drop(done);
        Out { status: o.status, stdout: o.stdout, stderr: o.stderr }
    })
}

/// Environment variables, by their number, and their values; the first may ask for an otherwise empty environment.
pub type Around = Vec<(u8, u8)>;
const VARIABLES: [&str; 40] = [
    "COLUMNS", "LINES", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "LANG", "LANGUAGE", "LC_ALL", "LC_NUMERIC", "LC_COLLATE", "LC_CTYPE", "TZ", "DEBUG",
    "SEIREN_DEBUG", "SEIREN_THEME", "SEIREN", "RUST_LOG", "RUST_BACKTRACE", "VERBOSE", "SOURCE_DATE_EPOCH", "USER", "HOME", "TMPDIR", "PWD", "PATH", "CI", "EDITOR", "PAGER", "SHELL", "HOSTNAME",
    "XDG_CONFIG_HOME", "JPY_PARENT_PID", "EVCXR_IS_RUNTIME", "COLORFGBG", "DISPLAY", "RAYON_NUM_THREADS", "POSIXLY_CORRECT",
];
const VALUES: [&str; 18] =
    ["", "0", "1", "2", "-1", "true", "false", "on", "off", "debug", "80", "100000", "C", "de_DE.UTF-8", "ja_JP.eucJP", "Asia/Tokyo", "dumb", "/nonexistent"];
pub fn around() -> BoxedStrategy<Around> {
    vec(any::<(u8, u8)>(), 1..8).boxed()
}
fn surround(c: &mut Command, around: &[(u8, u8)]) {
    if around.first().is_some_and(|(name, _)| name % 3 == 0) {
        c.env_clear();
    }
    for (name, value) in around {
        c.env(VARIABLES[*name as usize % VARIABLES.len()], VALUES[*value as usize % VALUES.len()]);
    }
    if around.len() > 4 {
        c.current_dir("/");
    }
}

/// Runs this program as a worker and returns what it printed.
pub fn worker(what: &str, input: &str) -> Result<String, Fail> {
    worker_in(what, input, &[])
}
pub fn worker_in(what: &str, input: &str, around: &[(u8, u8)]) -> Result<String, Fail> {
    let mut c = Command::new(std::env::current_exe().expect("current_exe"));
    c.args(["worker", what]);
    surround(&mut c, around);
    let o = run_with(c, Some(input.as_bytes()));
    ensure!(o.status.success(), "another process running the library failed ({}): {}", o.status, String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout).map_err(|_| Fail("worker output is not UTF-8".into()))
}
pub fn worker_main(what: &str) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    match what {
        "svg" => {
            let v: Vec<String> = serde_json::from_str(&s).expect("input");
            // a deep stack, as on the threads of the main process
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || v.iter().map(|s| crate::props_render::svg_answer(s)).collect::<Vec<_>>())
                .unwrap();
            println!("{}", serde_json::to_string(&h.join().unwrap()).unwrap());
        }
        "evcxr" => {
            let c: Show = serde_json::from_str(&s).expect("input");
            let (doc, vb) = c.build().unwrap_or_else(|f| {
                eprintln!("{}", f.0);
                std::process::exit(3)
            });
            draw_erd(&doc, vb).evcxr_display();
        }
        "layouts" => {
            let v: Vec<crate::model::Ast> = serde_json::from_str(&s).expect("input");
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || crate::props_layout::layouts(&v, false)).unwrap();
            match h.join().unwrap() {
                Ok(v) => println!("{}", serde_json::to_string(&v).unwrap()),
                Err(f) => {
                    eprintln!("{}", f.0);
                    return 3;
                }
            }
        }
        "wrapped" => {
            let v: Vec<String> = serde_json::from_str(&s).expect("input");
            v.into_iter().for_each(|t| SVGOutput::new(t).evcxr_display());
        }
        _ => return 2,
    }
    0
}

// ---------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Show {
    Program(crate::model::Ast, bool),
    Doc(MDoc, Option<(f32, f32, f32, f32)>),
}
impl Show {
    fn build(&self) -> Result<(seiren::mir::Document, Option<Rect>), Fail> {
        Ok(match self {
            Show::Program(a, vb) => {
                let l = lay(a)?;
                (l.doc, if *vb { l.view_box } else { None })
            }
            Show::Doc(d, vb) => (d.build().doc, vb.map(|(x, y, w, h)| Rect::new(Point::new(x, y), Size::new(w, h)))),
        })
    }
}
/// How two texts differ; of long ones only the first place.
fn unlike(what: &str, got: &str, want: &str) -> String {
    if got.len().max(want.len()) < 20_000 {
        return format!("{} is\n{:?}\nexpected\n{:?}", what, got, want);
    }
    let same = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let show = |s: &str| String::from_utf8_lossy(&s.as_bytes()[same.saturating_sub(50).min(s.len())..(same + 200).min(s.len())]).into_owned();
    format!("{} has {} bytes, {} expected; they differ from byte {} on: {:?}, expected {:?}", what, got.len(), want.len(), same, show(got), show(want))
}
fn check_notebook(c: &Show) -> Checked {
    let (doc, vb) = c.build()?;
    let svg = String::from_utf8(render(&doc, vb, None)?).map_err(|_| Fail("not UTF-8".into()))?;
    let got = worker("evcxr", &serde_json::to_string(c).unwrap())?;
    let want = format!("EVCXR_BEGIN_CONTENT image/svg+xml\n{}\nEVCXR_END_CONTENT\n", svg);
    ensure!(got == want, "{}", unlike("notebook output", &got, &want));
    let (tables, edges) = (doc.body().children().len(), doc.edges().count());
    Ok(Tags::new(tables > 0).class(vb.is_some(), "view-box").class(edges > 0, "edges"))
}
pub fn c25(cx: &mut Ctx) {
    fn strat(_: bool) -> BoxedStrategy<Show> {
        let f = || (-400i32..4000).prop_map(|v| v as f32 / 4.0);
        prop_oneof![
            (ast(Cfg { tables: 4, fields: 3, rels: 3, ..Cfg::any() }), any::<bool>()).prop_map(|(a, v)| Show::Program(a, v)),
            (mdoc(any_name(), 3, 3, 2), option::of((f(), f(), f(), f()))).prop_map(|(d, v)| Show::Doc(d, v)),
        ]
        .boxed()
    }
    cx.facet("notebook", "laid-out modules and random documents, with and without view box, shown by another process; non-trivial: the document has a table", 2_500, strat, check_notebook);
    let texts = |_| {
        let marker = select(vec!["EVCXR_BEGIN_CONTENT image/svg+xml", "EVCXR_END_CONTENT", "<svg>", "</svg>", "\n", "\r\n", " ", "\u{0}", "{}", "<?xml version=\"1.0\"?>"]).prop_map(String::from);
        let large = (select(vec!["<g/>\n", "\n", "x", "\u{65e5}\u{672c}", "<text>&amp;</text>"]), 0usize..300_000).prop_map(|(s, n)| s.repeat(n));
        let text = prop_oneof![100 => vec(prop_oneof![marker, any_name(), plain_name()], 0..6).prop_map(|v| v.concat()), 1 => large];
        vec(text, 0..40).boxed()
    };
    cx.facet("wrapped", "texts put into the notebook's wrapper one after the other: markup, markers, line ends, any characters; non-trivial: a text that is neither empty nor on one line", 400, texts, |v| {
        let got = worker("wrapped", &serde_json::to_string(v).unwrap())?;
        let want: String = v.iter().map(|t| format!("EVCXR_BEGIN_CONTENT image/svg+xml\n{}\nEVCXR_END_CONTENT\n", t)).collect();
        ensure!(got == want, "{}", unlike("notebook output", &got, &want));
        Ok(Tags::new(v.iter().any(|t| t.contains('\n'))).class(v.iter().any(|t| t.contains("EVCXR_")), "marker inside"))
    });
    cx.facet("vast", "the same with hundreds of tables, rows or edges", 12, |_| {
        prop_oneof![
            (vast(Cfg::any(), 280), any::<bool>()).prop_map(|(a, v)| Show::Program(a, v)),
            mdoc(any_name(), 300, 2, 300).prop_map(|d| Show::Doc(d, None)),
        ]
        .boxed()
    }, check_notebook);
    cx.facet("huge", "a module with a table of thousands or tens of thousands of rows, so that the SVG has megabytes", 1, |_| huge(&[1]), |h| check_notebook(&Show::Program(h.ast(), h.n % 2 == 0)));
}

// ---------------------------------------------------------------- C24
pub fn cli() -> PathBuf {
    std::env::current_exe().expect("current_exe").parent().unwrap().join("seiren-cli")
}
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("seiren-pbt-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
}
pub fn remove_scratch() {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}
fn file_name() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    scratch().join(format!("case {}.erd", N.fetch_add(1, Ordering::SeqCst)))
}
fn strip_ansi(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c)
        }
    }
    out
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    pub src: String,
    pub file: bool,
}
fn call(bytes: &[u8], file: bool) -> Out {
    call_in(bytes, file, &[])
}
fn call_in(bytes: &[u8], file: bool, around: &[(u8, u8)]) -> Out {
    let mut c = Command::new(cli());
    c.env_remove("RUST_BACKTRACE");
    surround(&mut c, around);
    if file {
        let p = file_name();
        std::fs::write(&p, bytes).expect("write");
        c.arg(&p);
        let o = run_with(c, None);
        let _ = std::fs::remove_file(&p);
        o
    } else {
        run_with(c, Some(bytes))
    }
}
fn normal(o: &Out) -> Result<(), Fail> {
    match o.status.code() {
        Some(c) if c != 101 => Ok(()),
        _ => Err(Fail(format!("the tool ended abnormally ({}): {}", o.status, String::from_utf8_lossy(&o.stderr)))),
    }
}
/// Every report echoes its line, at a cost that grows with the line's length: a text of thousands
/// of errors in a line of thousands of characters takes minutes to report, which proves nothing.
fn tedious(src: &str, errors: usize) -> bool {
    errors * src.lines().map(|l| l.chars().count()).max().unwrap_or(0) > 100_000
}
fn brief(s: &str) -> String {
    if s.chars().count() < 20_000 {
        return s.to_string();
    }
    s.chars().take(200).chain("...".chars()).collect()
}
fn check_cli(c: &Text) -> Checked {
    check_cli_in(c, &[])
}
fn check_cli_in(c: &Text, around: &[(u8, u8)]) -> Checked {
    let Some((want, errors)) = answer(&c.src)? else { return Ok(Tags::new(false).class(true, "too-tedious")) };
    let o = call_in(c.src.as_bytes(), c.file, around);
    normal(&o).map_err(|f| Fail(format!("{} for {:?}", f.0, c.src)))?;
    ensure!(o.stdout == want, "{} for {:?}", unlike("standard output", &String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&want)), brief(&c.src));
    let err = strip_ansi(&String::from_utf8_lossy(&o.stderr));
    let got = err.split('\n').filter(|l| l.starts_with("Error:")).count();
    ensure!(got == errors, "{} diagnostics for {} errors in {:?}: {}", got, errors, c.src, err);
    ensure!(errors > 0 || o.stderr.is_empty(), "unexpected output on standard error: {}", err);
    Ok(Tags::new(!want.is_empty() || errors > 0).class(c.file, "file").class(errors > 0, "errors").class(!want.is_empty(), "svg").class(!want.is_empty() && errors > 0, "both"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Unreadable {
    /// A program with bytes spliced in at a position, so that it is not UTF-8.
    Bytes { src: String, at: u32, bytes: Vec<u8>, file: bool },
    Missing(String),
    Directory,
}
/// A program in a file with a name of these bytes; none: the standard input under its name.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Named {
    pub src: String,
    pub name: Option<Vec<u8>>,
    pub relative: bool,
}
fn file_named() -> BoxedStrategy<Option<Vec<u8>>> {
    let any_byte = vec(prop_oneof![3 => 1u8..=255, 2 => select(b" .-:'\"\\$*?~%#\n\xff\xc3\xe3abe".to_vec())], 1..12);
    let whole = select(vec!["a", "a b.erd", "-", "--help", "-h", "a.erd.erd", "\u{e9}.erd", "\u{65e5}\u{672c}\u{8a9e}", "http:a", "(stdin)", "~", "%s", "{}", "a\nb"]).prop_map(|s| s.as_bytes().to_vec());
    let long = (1usize..200, any::<bool>()).prop_map(|(n, odd)| {
        let mut v = vec![b'n'; n];
        if odd {
            v[n / 2] = 0xfe;
        }
        v
    });
    prop_oneof![4 => any_byte.prop_map(Some), 3 => whole.prop_map(Some), 1 => long.prop_map(Some), 1 => Just(None)]
        .prop_map(|v| v.map(|v| v.into_iter().map(|b| if b == b'/' { b'_' } else { b }).collect()))
        .prop_filter("a file can have the name", |v| v.as_deref() != Some(&b"."[..]) && v.as_deref() != Some(&b".."[..]))
        .boxed()
}
/// What the library has to say about a text: the SVG and the number of errors; `None`: too much to report.
fn answer(src: &str) -> Result<Option<(Vec<u8>, usize)>, Fail> {
    let (m, e1, e2) = parse(src)?;
    let errors = e1.len() + e2.len();
    if tedious(src, errors) {
        return Ok(None);
    }
    let want = match &m {
        None => vec![],
        Some(m) => {
            let l = lay_doc(sut("into_mir", || m.into_mir())?)?;
            render(&l.doc, l.view_box, None)?
        }
    };
    Ok(Some((want, errors)))
}
fn scratch_dir() -> PathBuf {
    let d = file_name().with_extension("d");
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
fn check_named(c: &Named) -> Checked {
    use std::os::unix::ffi::OsStrExt;
    let Some((want, errors)) = answer(&c.src)? else { return Ok(Tags::new(false).class(true, "too-tedious")) };
    let mut tool = Command::new(cli());
    tool.env_remove("RUST_BACKTRACE");
    let o = match &c.name {
        None => run_with({ tool.arg("/dev/stdin"); tool }, Some(c.src.as_bytes())),
        Some(n) => {
            let d = scratch_dir();
            let n = std::ffi::OsStr::from_bytes(n);
            if std::fs::write(d.join(n), &c.src).is_err() {
                let _ = std::fs::remove_dir_all(&d);
                return Ok(Tags::new(false));
            }
            // a relative name with a dash before it could be an option of some later version
            if c.relative && !n.as_bytes().starts_with(b"-") {
                tool.current_dir(&d).arg(n);
            } else {
                tool.arg(d.join(n));
            }
            let o = run_with(tool, Some(b"erd { wrong { id int } }"));
            let _ = std::fs::remove_dir_all(&d);
            o
        }
    };
    normal(&o).map_err(|f| Fail(format!("{} for a file named {:?}", f.0, c.name.as_deref().map(String::from_utf8_lossy))))?;
    ensure!(o.stdout == want, "standard output is {:?}, expected {:?} for {:?}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&want), c.src);
    ensure!(errors > 0 || o.stderr.is_empty(), "unexpected output on standard error: {}", String::from_utf8_lossy(&o.stderr));
    let odd = c.name.as_deref().map_or(false, |n| std::str::from_utf8(n).is_err());
    Ok(Tags::new(!want.is_empty() || errors > 0).class(odd, "not-Unicode").class(c.name.is_none(), "/dev/stdin").class(errors > 0, "errors"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sink {
    /// A file that can take this many bytes, modulo the number that is wanted.
    Room(u32),
    /// A file that can take all but this many bytes of what is wanted.
    Lacking(u32),
    Full,
    NoReader,
    NoErrors,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Leaky {
    pub src: String,
    pub sink: Sink,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}
/// Lets the process write no more than so many bytes to a file; more is an error.
fn limit_files(c: &mut Command, bytes: u64) {
    use std::os::unix::process::CommandExt;
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    // both calls are among those that may be made between fork and exec
    unsafe {
        c.pre_exec(move || {
            signal(SIGXFSZ, SIG_IGN);
            if setrlimit(RLIMIT_FSIZE, &[bytes, bytes]) == 0 {
                Ok(())
            } else {
                Err(std::io::Error::last_os_error())
            }
        });
    }
}
fn check_leaky(c: &Leaky) -> Checked {
    let Some((want, errors)) = answer(&c.src)? else { return Ok(Tags::new(false).class(true, "too-tedious")) };
    let mut tool = Command::new(cli());
    tool.env_remove("RUST_BACKTRACE");
    let input = Some(c.src.as_bytes());
    let full = || Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
    // what reached the standard output, if that can be known, and how much of it could
    let (o, shown, room) = match &c.sink {
        Sink::Room(_) | Sink::Lacking(_) => {
            let room = match &c.sink {
                Sink::Room(n) => *n as usize % (want.len() + 1),
                Sink::Lacking(n) => want.len().saturating_sub(*n as usize),
                _ => unreachable!(),
            };
            let p = file_name();
            let f = std::fs::File::create(&p).expect("create");
            limit_files(&mut tool, room as u64);
            let o = run_onto(tool, input, f.into(), Stdio::piped());
            let shown = std::fs::read(&p).expect("read");
            let _ = std::fs::remove_file(&p);
            (o, Some(shown), room)
        }
        Sink::Full => (run_onto(tool, input, full(), Stdio::piped()), None, 0),
        Sink::NoReader => {
            let (r, w) = std::io::pipe().expect("pipe");
            drop(r);
            (run_onto(tool, input, w.into(), Stdio::piped()), None, 0)
        }
        Sink::NoErrors => {
            let mut o = run_onto(tool, input, Stdio::piped(), full());
            let shown = std::mem::take(&mut o.stdout);
            (o, Some(shown), want.len())
        }
    };
    normal(&o).map_err(|f| Fail(format!("{} with {:?}", f.0, c.sink)))?;
    let lacking = room < want.len();
    ensure!(!lacking || !o.status.success(), "the tool succeeds though only {} of {} bytes could be written ({:?})", room, want.len(), c.sink);
    let silent = matches!(c.sink, Sink::NoErrors) && errors > 0;
    if let Some(shown) = shown {
        ensure!(want.starts_with(&shown), "{:?} is written, which is not the beginning of {:?}", String::from_utf8_lossy(&shown), String::from_utf8_lossy(&want));
        ensure!(lacking || silent || shown.len() == want.len(), "only {} of {} bytes are written, though there is room ({:?})", shown.len(), want.len(), c.sink);
    }
    ensure!(lacking || errors > 0 || o.status.success(), "the tool fails though all could be written ({:?})", c.sink);
    Ok(Tags::new(lacking || silent).class(lacking && room > 0, "in the middle").class(lacking && room + 7 > want.len(), "in the last bytes").class(silent, "no diagnostics"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Span8 {
    span: Span,
    file: bool,
}
pub fn c24(cx: &mut Ctx) {
    cx.facet("programs", "programs over arbitrary names, from a file or standard input; non-trivial: something is printed", 3_000, |_| {
        (ast(Cfg { tables: 4, fields: 4, rels: 3, ..Cfg::any() }), crate::fmtsrc::reel(), any::<bool>())
            .prop_map(|(a, r, file)| Text { src: crate::fmtsrc::write(&a, &r), file })
            .boxed()
    }, check_cli);
    cx.facet("vast", "programs of hundreds of entities, fields or relations; non-trivial: something is printed", 60, |_| {
        (vast(Cfg::any(), 280), crate::fmtsrc::reel(), any::<bool>()).prop_map(|(a, r, file)| Text { src: crate::fmtsrc::write(&a, &r), file }).boxed()
    }, check_cli);
    cx.facet("huge", "a program with a table of thousands or tens of thousands of rows, so that the SVG has megabytes; non-trivial: something is printed", 5, |_| (huge(&[1]), any::<bool>()).boxed(), |(h, file)| {
        check_cli(&Text { src: h.ast().to_erd().to_string(), file: *file })
    });
    cx.facet("far", "a program, or one with 1-2 tokens changed, far down its text; non-trivial: something is printed", 60, |_| {
        (prop_oneof![crate::props_text::far_edits(0..1), crate::props_text::far_edits(1..3)], any::<bool>()).prop_map(|(c, file)| Text { src: c.text(), file }).boxed()
    }, check_cli);
    cx.facet("any-text", "arbitrary and damaged text as in C01; non-trivial: something is printed", 8_000, |big| {
        (crate::props_text::any_source(big), any::<bool>()).prop_map(|(s, file)| Text { src: s.0, file }).boxed()
    }, check_cli);
    cx.facet("surroundings", "a program or damaged text, under environment variables and in directories of all kinds; non-trivial: something is printed", 1_500, |_| {
        let text = prop_oneof![
            2 => (ast(Cfg { tables: 4, fields: 4, rels: 3, ..Cfg::any() }), crate::fmtsrc::reel()).prop_map(|(a, r)| crate::fmtsrc::write(&a, &r)),
            1 => crate::props_text::any_source(false).prop_map(|s| s.0),
        ];
        (text, any::<bool>(), around()).prop_map(|(src, file, around)| (Text { src, file }, around)).boxed()
    }, |(t, a)| check_cli_in(t, a));
    cx.facet("short-text", "very short texts; non-trivial: something is printed", 1_500, |_| {
        let piece = select(vec!["", "\n", " ", "\r\n", "erd", "{", "}", "// x", "?", "a", "`", "\t", "é", "\u{2028}", "\r", "erd{}", ";"]);
        (vec(piece, 0..4), any::<bool>()).prop_map(|(v, file)| Text { src: v.concat(), file }).boxed()
    }, check_cli);
    cx.facet("every-character", "all characters of the basic plane, and blocks of the others, in quoted names, in comments, and (one in eight) as they are, each on a line of its own; non-trivial: something is printed", 46, |_| {
        (Spans(1024), any::<bool>()).prop_map(|(span, file)| Span8 { span, file }).boxed()
    }, |s| {
        let names: String = s.span.chars().filter(|c| !['`', '\\'].contains(c)).map(|c| format!("`{}{}` int\n", c, c)).collect();
        let comments: String = s.span.chars().filter(|c| *c != '\n').map(|c| format!("// {}\n", c)).collect();
        let raw: String = s.span.chars().filter(|c| *c as u32 / 4 % 8 == 5).map(|c| format!("a{} {{ id int }}\n", c)).collect();
        check_cli(&Text { src: format!("erd {{\n{}a {{\n{} }} }}", comments, names), file: s.file })?;
        check_cli(&Text { src: format!("erd {{\n{} }}", raw), file: !s.file })
    });
    cx.facet("names", "a program in a file of any name, or the standard input under its name, with something else on the standard input of the former; non-trivial: something is printed", 1_500, |_| {
        let program = prop_oneof![
            3 => (ast(Cfg { tables: 2, fields: 2, rels: 2, ..Cfg::any() }), crate::fmtsrc::reel()).prop_map(|(a, r)| crate::fmtsrc::write(&a, &r)),
            1 => crate::props_text::any_source(false).prop_map(|s| s.0),
        ];
        (program, file_named(), any::<bool>()).prop_map(|(src, name, relative)| Named { src, name, relative }).boxed()
    }, check_named);
    cx.facet("output-fails", "a standard output that takes only so many bytes, none at all or is a pipe without reader, or a standard error that takes nothing; non-trivial: more is printed than can be", 1_500, |_| {
        let program = prop_oneof![
            4 => (ast(Cfg { tables: 3, fields: 3, rels: 2, ..Cfg::any() }), crate::fmtsrc::reel()).prop_map(|(a, r)| crate::fmtsrc::write(&a, &r)),
            1 => crate::props_text::any_source(false).prop_map(|s| s.0),
        ];
        let sink = prop_oneof![
            4 => any::<u32>().prop_map(Sink::Room),
            3 => (0u32..400).prop_map(Sink::Lacking),
            1 => Just(Sink::Full),
            1 => Just(Sink::NoReader),
            2 => Just(Sink::NoErrors),
        ];
        (program, sink).prop_map(|(src, sink)| Leaky { src, sink }).boxed()
    }, check_leaky);
    cx.facet("unreadable", "text that is not UTF-8, missing files, a directory; non-trivial: all", 1_500, |_| {
        let bad = select(vec![vec![0xffu8], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xe2, 0x82], vec![0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0xf0, 0x9f]]);
        prop_oneof![
            8 => (ast(Cfg { tables: 3, fields: 3, rels: 2, ..Cfg::plain() }), crate::fmtsrc::reel(), any::<u32>(), bad, any::<bool>()).prop_map(|(a, r, at, bytes, file)| Unreadable::Bytes {
                src: crate::fmtsrc::write(&a, &r),
                at,
                bytes,
                file
            }),
            2 => plain_name().prop_map(Unreadable::Missing),
            1 => Just(Unreadable::Directory),
        ]
        .boxed()
    }, |c| {
        let o = match c {
            Unreadable::Bytes { src, at, bytes, file } => {
                let mut b = src.clone().into_bytes();
                let i = *at as usize % (b.len() + 1);
                b.splice(i..i, bytes.iter().copied());
                if std::str::from_utf8(&b).is_ok() {
                    return Ok(Tags::new(false));
                }
                call(&b, *file)
            }
            Unreadable::Missing(n) => {
                let mut c = Command::new(cli());
                c.arg(scratch().join("missing").join(n));
                run_with(c, None)
            }
            Unreadable::Directory => {
                let mut c = Command::new(cli());
                c.arg(scratch());
                run_with(c, None)
            }
        };
        ensure!(!o.status.success(), "the tool succeeds on unreadable input");
        if o.status.code().is_none() {
            fail!("the tool is killed: {}", o.status);
        }
        ensure!(o.stdout.is_empty(), "standard output: {:?}", String::from_utf8_lossy(&o.stdout));
        Ok(Tags::new(true).class(matches!(c, Unreadable::Bytes { .. }), "not-utf8"))
    });
}

// ---------------------------------------------------------------- C35
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faulty {
    pub src: String,
    /// The file's name; standard input if absent.
    pub file: Option<String>,
}
/// Line and column, from 1, of a character offset; a second reading for the end of a text that
/// ends with a line break, which may be shown as the next line or on the line of that break.
fn line_col(src: &str, at: usize) -> Vec<(usize, usize)> {
    let (mut line, mut start, mut last) = (1, 0, 0);
    let c: Vec<char> = src.chars().collect();
    for (i, x) in c.iter().enumerate().take(at) {
        if *x == '\n' {
            line += 1;
            last = start;
            start = i + 1;
        }
    }
    let mut v = vec![(line, at - start + 1)];
    if at == c.len() && c.last() == Some(&'\n') {
        v.push((line - 1, at - last + 1));
    }
    v
}
/// How a token may be spelt in a diagnostic.
fn spellings(t: &Token) -> Vec<String> {
    match t {
        Token::Ident(s) => vec![s.clone()],
        Token::Edge => vec!["o--o".into()],
        Token::Ctrl(c) => vec![c.to_string()],
        Token::Newline => vec!["\\n".into(), "newline".into()],
        Token::Erd => vec!["erd".into()],
        Token::Int => vec!["int".into()],
        Token::Uuid => vec!["uuid".into()],
        Token::Text => vec!["text".into()],
        Token::Timestamp => vec!["timestamp".into()],
        Token::PK => vec!["PK".into()],
        Token::FK => vec!["FK".into()],
    }
}
/// Words of a line without quotation marks around them and commas behind.
fn words(l: &str) -> Vec<&str> {
    l.split_whitespace().map(|w| w.trim_end_matches(',').trim_matches(|c| c == '\'' || c == '"' || c == '`')).collect()
}
fn is_echo(l: &str) -> bool {
    let t = l.trim_start().trim_start_matches(|c: char| c.is_ascii_digit());
    t.len() < l.trim_start().len() && t.trim_start().starts_with(['\u{2502}', '|'])
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_graphic()) && !s.starts_with(['\'', '"', '`', ',']) && !s.ends_with(['\'', '"', '`', ','])
}
/// What a report must tell about one error.
struct Told {
    at: usize,
    /// Spellings of what was found; `None`: the end of the text; empty: not checked.
    found: Option<Vec<String>>,
    expected: Vec<Vec<String>>,
    message: Option<String>,
}
fn check_report(lines: &[&str], e: &Told, name: &str, src: &str) -> Result<(), String> {
    let places: Vec<String> = line_col(src, e.at).iter().map(|(l, c)| format!("{}:{}:{}", name, l, c)).collect();
    let Some(head) = lines.iter().position(|l| !is_echo(l) && places.iter().any(|p| l.contains(&format!("[{}]", p)))) else {
        return Err(format!("does not point to {}", places.join(" or ")));
    };
    let told: Vec<&str> = lines.iter().enumerate().filter(|(i, l)| *i != head && !is_echo(l)).map(|x| *x.1).collect();
    match &e.found {
        None if !told.iter().any(|l| l.to_lowercase().contains("end of")) => return Err("does not say that the text has ended".into()),
        Some(f) if !f.is_empty() && !told.iter().skip(1).any(|l| words(l).iter().any(|w| f.iter().any(|s| s == w))) => return Err(format!("does not name what was found, {}", f[0])),
        _ => {}
    }
    let w = words(told.first().unwrap_or(&""));
    for x in &e.expected {
        if !x.iter().any(|s| w.contains(&s.as_str())) {
            return Err(format!("does not say that {} was expected", x[0]));
        }
    }
    match &e.message {
        Some(m) if !told.iter().any(|l| l.contains(m.as_str())) => Err(format!("does not say {:?}", m)),
        _ => Ok(()),
    }
}
fn check_reports(c: &Faulty) -> Checked {
    let (_, e1, e2) = parse(&c.src)?;
    if tedious(&c.src, e1.len() + e2.len()) {
        return Ok(Tags::new(false).class(true, "too-tedious"));
    }
    let custom = |r: String| (!r.is_empty()).then(|| r);
    let mut told: Vec<Told> = vec![];
    for e in &e1 {
        told.push(Told {
            at: e.span().start,
            found: e.found().map(|c| if plain(&c.to_string()) { vec![c.to_string()] } else { vec![] }),
            expected: e.expected().flatten().map(|c| c.to_string()).filter(|s| plain(s)).map(|s| vec![s]).collect(),
            message: match e.reason() {
                SimpleReason::Custom(m) => custom(m.clone()),
                _ => None,
            },
        });
        // the list of expected characters may itself hold a line break
        if e.expected().flatten().any(|c| !c.is_ascii_graphic()) {
            told.last_mut().unwrap().expected.clear();
        }
    }
    for e in &e2 {
        told.push(Told {
            at: e.span().start,
            found: e.found().map(|t| match t {
                Token::Ident(s) if !plain(s) => vec![],
                t => spellings(t),
            }),
            expected: e.expected().flatten().filter(|t| !matches!(t, Token::Ident(_))).map(spellings).collect(),
            message: match e.reason() {
                SimpleReason::Custom(m) => custom(m.clone()),
                _ => None,
            },
        });
    }
    for t in told.iter_mut().filter(|t| t.message.is_some()) {
        t.found = Some(vec![]);
        t.expected.clear();
    }
    let (o, name) = match &c.file {
        None => (call(c.src.as_bytes(), false), "(stdin)".to_string()),
        Some(f) => {
            static N: AtomicUsize = AtomicUsize::new(0);
            let dir = scratch().join(format!("named {}", N.fetch_add(1, Ordering::SeqCst)));
            std::fs::create_dir_all(&dir).expect("directory");
            let p = dir.join(f);
            std::fs::write(&p, &c.src).expect("write");
            let mut run = Command::new(cli());
            run.arg(&p).env_remove("RUST_BACKTRACE");
            let o = run_with(run, None);
            std::fs::remove_file(&p).expect("remove");
            std::fs::remove_dir(&dir).expect("remove");
            (o, p.to_str().expect("UTF-8").to_string())
        }
    };
    let err = strip_ansi(&String::from_utf8_lossy(&o.stderr));
    let lines: Vec<&str> = err.split('\n').collect();
    let mut heads: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.starts_with("Error:")).map(|x| x.0).collect();
    ensure!(heads.len() == told.len(), "{} reports for {} errors in {:?}: {}", heads.len(), told.len(), c.src, err);
    heads.push(lines.len());
    for (i, t) in told.iter().enumerate() {
        if let Err(m) = check_report(&lines[heads[i]..heads[i + 1]], t, &name, &c.src) {
            fail!("report {} {} in {:?}: {}", i + 1, m, c.src, lines[heads[i]..heads[i + 1]].join("\n"));
        }
    }
    Ok(Tags::new(!told.is_empty())
        .class(told.len() > 1, "several")
        .class(!e1.is_empty(), "character")
        .class(!e2.is_empty(), "token")
        .class(e2.iter().any(|e| e.found().is_none()), "end-of-text")
        .class(told.iter().any(|t| t.message.is_some()), "message")
        .class(told.iter().any(|t| line_col(&c.src, t.at)[0].0 > 1), "later-line"))
}
pub fn c35(cx: &mut Ctx) {
    use crate::props_text::{any_source, edited, edits, sequences};
    fn named(s: BoxedStrategy<String>) -> BoxedStrategy<Faulty> {
        let name = select(vec!["a.erd", "two words.erd", "-x", "\u{e9}\u{65e5}\u{672c}", "%s{}", "no'quote\"", "a:1:2", "[b]"]);
        (s, option::of(name.prop_map(String::from))).prop_map(|(src, file)| Faulty { src, file }).boxed()
    }
    const RULE: &str = "non-trivial: at least one error";
    cx.facet("any-text", "arbitrary and damaged text as in C01; non-trivial: at least one error", 3_000, |big| named(any_source(big).prop_map(|s| s.0).boxed()), check_reports);
    cx.facet("edited", RULE, 3_000, |big| named(edits(big).prop_map(|e| edited(&e)).boxed()), check_reports);
    cx.facet("sequences", RULE, 3_000, |big| named(sequences(big).prop_map(|s| s.0).boxed()), check_reports);
    cx.facet("far", "1-2 tokens changed in a program far down its text; non-trivial: at least one error", 60, |_| named(crate::props_text::far_edits(1..3).prop_map(|c| c.text()).boxed()), check_reports);
    cx.facet("vast", "programs of hundreds of entities, fields or relations with up to 3 tokens changed and up to 50 stray characters; non-trivial: at least one error", 40, |_| {
        (crate::props_text::vast_edits(false), vec((any::<u32>(), select(vec!["?", "9", "[", "\u{65e5}", "`\\x`", "\n\n\n", "// \u{e9}\n"])), 0..50), any::<bool>())
            .prop_flat_map(|(e, strays, lines)| {
                let mut words: Vec<String> = edited(&e).split(' ').map(String::from).collect();
                for (at, s) in strays {
                    let i = at as usize % (words.len() + 1);
                    words.insert(i, s.to_string());
                }
                named(Just(words.join(if lines { "\n" } else { " " })).boxed())
            })
            .boxed()
    }, check_reports);
    cx.facet("lines", "token sequences over several lines, each under a comment; non-trivial: at least one error", 3_000, |_| {
        let t = select(vec!["a", "`int`", "id int", "text PK", "FK", "o--o", "{", "}", ".", ";", "erd", "a.b o--o c", "`\\ud800`", "`\\x`", "`", "?", "7"]);
        named((vec((t, select(vec!["\n", " ", " // \u{65e5}\u{672c}\n", "\r\n", "\n\n  "])), 1..8), any::<bool>())
            .prop_map(|(v, open)| format!("{}{}", if open { "erd {\n" } else { "" }, v.into_iter().map(|(a, b)| a.to_string() + b).collect::<String>()))
            .boxed())
    }, check_reports);
}

//! Property-based checks for seiren. `check <ID>`, `replay <file>`; internal: `worker <what>`.
mod fmtsrc;
mod gen;
mod model;
mod pipe;
mod props_cli;
mod props_doc;
mod props_layout;
mod props_more;
mod props_render;
mod props_text;
mod props_units;
mod refparse;
mod run;
mod supervise;
mod xml;

use run::{Ctx, Mode, Tier};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn dispatch(id: &str, cx: &mut Ctx) -> bool {
    match id {
        "C01" => props_text::c01(cx),
        "C02" => props_text::c02(cx),
        "C03" => props_text::c03(cx),
        "C04" => props_text::c04(cx),
        "C05" => props_text::c05(cx),
        "C06" => props_text::c06(cx),
        "C07" => props_layout::c07(cx),
        "C08" => props_layout::c08(cx),
        "C09" => props_layout::c09(cx),
        "C10" => props_layout::c10(cx),
        "C11" => props_layout::c11(cx),
        "C12" => props_layout::c12(cx),
        "C13" => props_layout::c13(cx),
        "C14" => props_layout::c14(cx),
        "C15" => props_layout::c15(cx),
        "C16" => props_render::c16(cx),
        "C17" => props_render::c17(cx),
        "C18" => props_render::c18(cx),
        "C19" => props_render::c19(cx),
        "C20" => props_render::c20(cx),
        "C21" => props_render::c21(cx),
        "C22" => props_units::c22(cx),
        "C23" => props_units::c23(cx),
        "C24" => props_cli::c24(cx),
        "C25" => props_cli::c25(cx),
        "C26" => props_units::c26(cx),
        "C27" => props_units::c27(cx),
        "C28" => props_units::c28(cx),
        "C29" => props_layout::c29(cx),
        "C30" => props_text::c30(cx),
        "C31" => props_more::c31(cx),
        "C32" => props_more::c32(cx),
        "C33" => props_more::c33(cx),
        "C34" => props_more::c34(cx),
        "C35" => props_cli::c35(cx),
        "C36" => props_more::c36(cx),
        "C37" => props_doc::c37(cx),
        "C38" => props_doc::c38(cx),
        _ => return false,
    }
    true
}

fn root() -> PathBuf {
    match std::env::var_os("PBT_ROOT") {
        Some(r) => PathBuf::from(r),
        None => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn watchdog(limit: Duration, what: String) {
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        eprintln!("ERROR: {} did not finish within {:?}", what, limit);
        std::process::exit(2);
    });
}

fn main() {
    let started = Instant::now();
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id] => std::process::exit(supervise::check(id)),
        ["run", id] => {
            let mut cx = Ctx::new(id, seed(), tier(), Mode::Run, &root());
            if !dispatch(id, &mut cx) {
                eprintln!("ERROR: no property {}", id);
                std::process::exit(2);
            }
            props_cli::remove_scratch();
            std::process::exit(cx.finish(started));
        }
        // Exit status 1 and a violation if the case crashes, hangs or fails in a process of its own.
        ["locate", id, slot] => {
            let mut cx = Ctx::new(id, seed(), tier(), Mode::Locate(supervise::Slot::parse(slot)), &root());
            dispatch(id, &mut cx);
            props_cli::remove_scratch();
            std::process::exit(cx.finish(started));
        }
        ["worker", what] => {
            watchdog(Duration::from_secs(120), format!("worker {}", what));
            std::process::exit(props_cli::worker_main(what));
        }
        ["replay", file] => {
            watchdog(Duration::from_secs(600), file.to_string());
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read the replay file")).expect("not a replay file");
            let id = j["property"].as_str().expect("property").to_string();
            let facet = j["facet"].as_str().expect("facet").to_string();
            let mut cx = Ctx::new(&id, 0, Tier::Quick, Mode::Replay { facet, case: j["case"].clone() }, &root());
            dispatch(&id, &mut cx);
            props_cli::remove_scratch();
            std::process::exit(cx.finish(started));
        }
        _ => {
            eprintln!("usage: seiren-pbt check <ID> | replay <file>");
            std::process::exit(2);
        }
    }
}

#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the list below: applies each edit in a scratch copy of /repo,
checks that it builds, passes the stable tests and that the demonstration tells the two apart.
usage: plant.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
RUST = '''#!/bin/bash
# Runs demo.rs against the library in the current directory. Exit 0: the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nseiren = { path = "%s" }\\n' "$repo" > "$t/Cargo.toml"
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target RUSTC_WRAPPER=
cd "$t" && cargo run -q --offline 2>"$t/log" || { tail -5 "$t/log"; exit 1; }
'''
SH = '''#!/bin/bash
# Uses the command-line tool that the build left in the current directory. Exit 0: the property holds.
tool=$PWD/target/debug/seiren
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
'''
PRE = '''#![allow(unused)]
use seiren::{erd::*, geometry::*, layout::*, mir, parser::parse, renderer::*};
fn lay(src: &str) -> (mir::Document, SimpleLayoutEngine, Option<Rect>) {
    let (m, a, b) = parse(src);
    assert!(a.is_empty() && b.is_empty(), "{:?} {:?}", a, b);
    let mut d = m.unwrap().into_mir();
    let mut e = SimpleLayoutEngine::new();
    let v = e.place_nodes(&mut d);
    e.place_terminal_ports(&mut d);
    e.draw_edge_path(&mut d);
    (d, e, v)
}
fn svg(d: &mir::Document) -> String {
    let mut b = vec![];
    SVGRenderer::new().render(d, &mut b).unwrap();
    String::from_utf8(b).unwrap()
}
'''
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, kind="rust"):
    BUGS.append((id, prop, needs, breaks, edits, demo, kind))
exec(open(os.path.join(ROOT, "tools", "bugs.py")).read())

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build_and_test(repo):
    """the build and test scripts, for a scratch copy"""
    for s in ("build", "test"):
        t = open(f"/opt/vp/{s}.sh").read().replace("/repo", repo)
        open(f"/tmp/plant/{s}.sh", "w").write(t)
    r = run(["bash", "/tmp/plant/build.sh"])
    if r.returncode: return "build: " + r.stdout[-1500:]
    r = run(["bash", "/tmp/plant/test.sh", "/tmp/plant/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/plant/out.json"))
    want = base.get("passed") or base.get("stable") or base["tests"]
    bad = [t for t in want if t not in out.get("passed", [])]
    return "tests: %s" % bad if bad else None

def main():
    only = sys.argv[1:]
    os.makedirs("/tmp/plant", exist_ok=True)
    copy = "/tmp/plant/repo"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
    for id, prop, needs, breaks, edits, demo, kind in BUGS:
        if only and id not in only: continue
        subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])
        d = os.path.join(SEEDED, id); os.makedirs(d, exist_ok=True)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        if kind == "rust":
            open(d + "/demo.rs", "w").write(PRE + demo); open(d + "/demo.sh", "w").write(RUST)
        else:
            open(d + "/demo.sh", "w").write(SH + demo)
        os.chmod(d + "/demo.sh", 0o755)
        e = build_and_test(copy)
        clean = run(["bash", d + "/demo.sh"], cwd=copy)
        problem = e or (clean.returncode and "demo fails on the unchanged tree: " + clean.stdout[-800:])
        for f, a, b in edits:
            p = os.path.join(copy, f); s = open(p).read()
            if s.count(a) != 1: problem = f"edit matches {s.count(a)} times: {a}"
            open(p, "w").write(s.replace(a, b))
        diff = run(["git", "-C", copy, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if not problem: problem = build_and_test(copy)
        if not problem:
            r = run(["bash", d + "/demo.sh"], cwd=copy)
            if r.returncode == 0: problem = "demo passes with the change"
            else: print(id, "ok:", r.stdout.strip().splitlines()[-1:] )
        if problem: print(id, "REJECTED:", problem); shutil.rmtree(d)
    shutil.rmtree(copy)
main()

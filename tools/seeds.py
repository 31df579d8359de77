#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the table in seeds_data.py.

usage: seeds.py gen [ID..]     write the directories
       seeds.py test [ID..]    try them in a scratch copy of /repo: builds,
                               passes the test suite, demo fails / passes
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = "/verif/seeded"

DEMO = r'''#!/usr/bin/env bash
# Exits 0 when the behaviour is right, 1 when it is not. Runs in the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo"
sed -i "s#path = \"/repo#path = \"$repo#" "$tmp/demo/Cargo.toml"
cd "$tmp/demo" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet 2>"$tmp/log" || { tail -30 "$tmp/log"; exit 2; }
"$tmp/target/debug/mc"
'''

def main_rs(body):
    return r'''//! Demonstration of one behaviour.
#![allow(dead_code, unused, clippy::all)]
#[macro_use]
extern crate amplify;
#[macro_use]
mod core;
mod explore;
mod lab;

use std::collections::*;
use std::str::FromStr;
use crate::core::*;
use crate::lab::*;
use bp::*;
use rgbstd::*;

const HELD: bool = false;
fn pay(from: usize, to: usize, c: usize, val: Val, coins: u32, ben: Ben, deliver: bool) -> Act {
    Act::Pay { from, to, c, val, coins, method: OP, ben, deliver }
}

fn demo() -> R {
''' + body + r'''
    Ok(())
}

fn main() {
    match std::panic::catch_unwind(demo) {
        Ok(Ok(())) => println!("as expected"),
        Ok(Err(e)) => {
            println!("WRONG: {} {}", e.sig, e.detail);
            std::process::exit(1);
        }
        Err(_) => {
            println!("WRONG: panic");
            std::process::exit(1);
        }
    }
}
'''

def load():
    import seeds_data
    return seeds_data.SEEDS

def patched(repo, s):
    for (f, old, new) in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w").write(t.replace(old, new))

def gen(s, repo):
    d = f"{OUT}/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/demo/src")
    patched(repo, s)
    diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    # only lines of the original repository may be changed
    base = subprocess.check_output(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    for (f, old, new) in s["edits"]:
        orig = subprocess.check_output(["git", "-C", repo, "show", f"{base}:{f}"], text=True).splitlines()
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("  note:", s["id"], "line is not original:", l)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    src = "/verif/mc"
    for f in ["core.rs", "explore.rs"]:
        shutil.copy(f"{src}/src/{f}", d + "/demo/src/")
    shutil.copytree(f"{src}/src/lab", d + "/demo/src/lab")
    shutil.copy(f"{src}/Cargo.lock", d + "/demo/")
    t = open(f"{src}/Cargo.toml").read()
    t = t[:t.index("[profile")]
    open(d + "/demo/Cargo.toml", "w").write(t)
    open(d + "/demo/src/main.rs", "w").write(main_rs(s["demo"]))

def run(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def test(s, repo, target):
    d = f"{OUT}/{s['id']}"
    # one shared target folder keeps this fast
    demo = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
    try:
        shutil.copytree(d + "/demo", demo + "/demo")
        p = demo + "/demo/Cargo.toml"
        t = open(p).read().replace('path = "/repo', f'path = "{repo}')
        open(p, "w").write(t)
        env = dict(os.environ, CARGO_TARGET_DIR=target)
        def go():
            r = run(f"cd {demo}/demo && cargo build --offline --quiet 2>/tmp/seed.err && {target}/debug/mc", env=env)
            return r.returncode, r.stdout[-300:]
        good = go()
        if good[0] != 0:
            print(s["id"], "GOOD FAILS", good)
            return
        r = run(f"git -C {repo} apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
        bad = go()
        env2 = dict(os.environ, CARGO_TARGET_DIR=target + "-test")
        t = run(f"cd {repo} && cargo test --workspace --all-features --offline 2>&1 | grep -E '^test |^error|test result'", env=env2)
        ok = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("ok"))
        fl = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        run(f"git -C {repo} checkout -q -- .")
        verdict = "OK" if good[0] == 0 and bad[0] == 1 and not fl and ok >= 33 else "PROBLEM"
        print(s["id"], verdict, "good", good[0], "bad", bad[0], bad[1].strip()[:200], "tests", ok, fl[:2], flush=True)
        if good[0] != 0: print(good[1])
    finally:
        shutil.rmtree(demo)

if __name__ == "__main__":
    ids = sys.argv[2:]
    seeds = [s for s in load() if not ids or s["id"] in ids]
    repo = "/tmp/seedrepo"
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    try:
        for s in seeds:
            if sys.argv[1] == "gen":
                gen(s, repo)
            else:
                test(s, repo, "/tmp/seedtarget")
    finally:
        shutil.rmtree(repo, ignore_errors=True)

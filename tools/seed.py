#!/usr/bin/env python3
"""Makes planted bugs: seed.py FILE [ID…].  FILE defines BUGS: id -> dict(prop, needs, breaks, edits=[(file, old, new)], demo).
Keeps in /verif/seeded those that build, pass the existing tests, and whose demonstration fails only with the change."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
piston_meta = { path = "$repo" }
piston_meta_search = { path = "$repo/src/search" }
[profile.dev]
debug = false
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use piston_meta::*;
use std::sync::Arc;
type Items = Vec<Range<MetaData>>;
fn read(grammar: &str, doc: &str) -> Result<Items, Range<ParseError>> {
    let s = syntax_errstr(grammar).unwrap_or_else(|e| panic!("{}", e));
    let mut v = vec![];
    parse(&s, doc, &mut v).map(|_| v)
}
fn st(s: &str) -> Arc<String> { Arc::new(s.into()) }
'''
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="seed-")
    try:
        clean = os.path.join(base, "clean")
        shutil.copytree("/repo", clean, symlinks=True)
        work = os.path.join(base, "work")
        shutil.copytree("/repo", work, symlinks=True)
        for i, b in bugs.items():
            if only and i not in only: continue
            sh("git checkout -q -- .", work)
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(work, f); s = open(p).read()
                if s.count(old) < 1: bad = "text not found in %s: %s" % (f, old); break
                if s.count(old) > 1 and not b.get("first"): bad = "text found %d times in %s: %s" % (s.count(old), f, old); break
                open(p, "w").write(s.replace(old, new, 1))
            if bad: print(i, "BAD", bad); continue
            d = os.path.join(V, "seeded", i)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", work).stdout)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.rs"), "w").write(PRE + "fn main() {\n" + b["demo"].strip("\n") + "\n}\n")
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            t = sh("cargo test --offline -q 2>&1 && (cd src/search && cargo test --offline -q 2>&1)", work)
            if t.returncode:
                fails = [l for l in t.stdout.split("\n") if "FAILED" in l or "error" in l or "panicked" in l]
                print(i, "TESTS FAIL", fails[:6]); shutil.rmtree(d); continue
            a = sh("sh %s/demo.sh" % d, clean); z = sh("sh %s/demo.sh" % d, work)
            if a.returncode != 0 or z.returncode == 0 or z.returncode == 3:
                print(i, "DEMO", a.returncode, z.returncode, a.stdout[-1500:], z.stdout[-500:]); shutil.rmtree(d); continue
            print(i, "kept", z.returncode, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
main()

#!/usr/bin/env python3
"""Runs checks against planted bugs: try_seeded.py [--all] [ID…]; results in /tmp/seeded.json."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/seeded.json"
args = [a for a in sys.argv[1:] if a != "--all"]
every = "--all" in sys.argv
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    if args and i not in args: continue
    d = os.path.join(V, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        r = res.setdefault(i, {})
        for c in (props if every else [p]):
            t = time.time()
            x = subprocess.run(["python3", "check.py", c], cwd=V, capture_output=True, text=True)
            last = [l for l in x.stdout.split("\n") if "smallest" in l or "VIOLATION" in l]
            r[c] = x.returncode
            print(i, c, "own" if c == p else "", {0: "MISSED", 1: "caught"}.get(x.returncode, "ERROR %d %s" % (x.returncode, x.stderr[-300:])), "%.0fs" % (time.time() - t), last[:1], flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True, check=True)
    json.dump(res, open(OUT, "w"))

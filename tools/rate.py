#!/usr/bin/env python3
"""How many of the generated cases does a planted bug change?  rate.py [--rounds N] ID…
Compares what two builds of the harness observe, without the specification; only for
judging the generators.  Works on copies below /tmp/rate; /repo is not touched."""
import json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mbt"))
import run, plans
from documents import Cases
args = sys.argv[1:]
rounds = 3
if "--rounds" in args: i = args.index("--rounds"); rounds = int(args[i + 1]); del args[i:i + 2]
W = "/tmp/rate"
def build(name, patch=None):
    d = os.path.join(W, name)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/repo/"], check=True) if shutil.which("rsync") else \
        (shutil.rmtree(d + "/repo", ignore_errors=True), shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git")))
    if patch: subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d + "/repo", patch], check=True, cwd="/")
    shutil.rmtree(d + "/harness", ignore_errors=True)
    shutil.copytree(V + "/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = d + "/harness/" + f
        if os.path.exists(p):
            s = open(p).read().replace('"../../repo', '"' + d + '/repo').replace('"/repo', '"' + d + '/repo'); open(p, "w").write(s)
    subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d + "/harness", env=dict(os.environ, CARGO_TARGET_DIR=W + "/target-" + ("base" if name == "base" else "bug")), check=True)
    b = d + "/mbt"; shutil.copy(W + "/target-" + ("base" if name == "base" else "bug") + "/debug/mbt", b)
    return b
base = build("base")
cache = {}
def cases(prop, seed):
    if (prop, seed) not in cache:
        b = Cases(); plans.PLANS[prop]["cases"](b, random.Random("%s/%d/1" % (prop, 77000 + seed)), 1, 1 if seed else 0)
        work = tempfile.mkdtemp(prefix="rate-", dir=W)
        run.MBT = base
        cache.clear()
        cache[prop, seed] = (b, work, run.execute(b.grammars, b.cases, work))
    return cache[prop, seed]
ids = args or sorted(os.listdir(V + "/seeded"))
bugs = {}
for i in ids:
    d = os.path.join(V, "seeded", i)
    bugs[i] = (json.load(open(d + "/meta.json"))["property"], build("bug", d + "/patch.diff"))
    shutil.copy(bugs[i][1], os.path.join(W, "mbt-" + i)); bugs[i] = (bugs[i][0], os.path.join(W, "mbt-" + i))
counts = {i: [] for i in ids}
for prop in sorted({p for p, _ in bugs.values()}):
    for seed in range(rounds):
        b, work, want = cases(prop, seed)
        for i, (p, exe) in bugs.items():
            if p != prop: continue
            run.MBT = exe
            got = run.execute(b.grammars, b.cases, work)
            counts[i].append(sum(got.get(n) != want[n] for n in want))
        shutil.rmtree(work)
    for i, (p, _) in bugs.items():
        if p == prop: print(p, i, counts[i], flush=True)
shutil.rmtree(W, ignore_errors=True)

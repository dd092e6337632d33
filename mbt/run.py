"""Runs the harness on cases, and TLC on what it observed."""
import json, os, re, resource, selectors, subprocess, sys, tempfile, threading, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
MBT = os.path.join(TARGET, "debug", "mbt")
CPUS = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass
class TooLong(ToolError):
    pass

def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-4000:])

# ------------------------------------------------------------------ execution
CASE_TIMEOUT = 20.0      # a case takes milliseconds; this is for endless loops
MEMORY = 3 << 30
MAX_DEATHS = 3           # per lane; then the rest of the lane is left out

def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def _lane(gpath, cpath, frm, to, out, fresh):
    deaths = 0
    pos = frm
    while pos < to and deaths < MAX_DEATHS:
        end = pos + 1 if fresh else to
        p = subprocess.Popen([MBT, "exec", gpath, cpath, str(pos), str(end)], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, preexec_fn=_limit)
        fd = p.stdout.fileno()
        os.set_blocking(fd, False)
        sel = selectors.DefaultSelector()
        sel.register(fd, selectors.EVENT_READ)
        buf = b""
        hung = False
        last = time.time()
        while True:
            ev = sel.select(timeout=max(0.05, CASE_TIMEOUT - (time.time() - last)))
            if ev:
                data = os.read(fd, 1 << 20)
                if not data: break
                last = time.time()
                buf += data
                *ls, buf = buf.split(b"\n")
                for l in ls:
                    n, j = l.split(b" ", 1)
                    out[int(n)] = json.loads(j)
                    pos = int(n) + 1
            elif time.time() - last > CASE_TIMEOUT:
                hung = True
                p.kill()
                break
        err = p.stderr.read().decode("utf8", "replace") if not hung else ""
        p.stdout.close(); p.stderr.close()
        rc = p.wait()
        if rc == 9 and not hung:
            raise ToolError("harness: " + err)
        if pos < end:
            out[pos] = {"r": "hang" if hung else "crash"}
            pos += 1
            deaths += 1

def execute(grammars, cases, work, fresh=False, lanes=None):
    """Observations by case index; cases behind too many dead ones are missing."""
    gpath = os.path.join(work, "grammars.ndjson")
    cpath = os.path.join(work, "todo.ndjson")
    with open(gpath, "w") as f:
        for g in grammars: f.write(json.dumps(g, separators=(",", ":")) + "\n")
    with open(cpath, "w") as f:
        for c in cases: f.write(json.dumps(c, separators=(",", ":")) + "\n")
    out = {}
    lanes = lanes or CPUS
    n = len(cases)
    errs = []
    def work_on(a, b):
        try: _lane(gpath, cpath, a, b, out, fresh)
        except Exception as e: errs.append(e)
    ts = []
    for k in range(lanes):
        a, b = n * k // lanes, n * (k + 1) // lanes
        if a < b:
            t = threading.Thread(target=work_on, args=(a, b))
            t.start(); ts.append(t)
    for t in ts: t.join()
    if errs: raise errs[0] if isinstance(errs[0], ToolError) else ToolError(repr(errs[0]))
    return out

# ------------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.completed = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"(?:Invariant|Temporal properties|Action property) ?(\w*) ?(?:is|were) violated", out)

def tlc(module, cfg, env=None, workers=None, timeout=800, heap="8g", extra=(), simulate=None):
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers or CPUS), "-config", cfg]
        cmd += list(extra) + [module]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TooLong("TLC did not finish %s in %d s" % (module, timeout))
        return TlcResult(p.stdout, p.returncode, time.time() - t)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def plain(out):
    """Output of TLC without the list of modules."""
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))

def conform(module, prop, grammars, cases, obs, work, timeout=800, extra_env=None):
    """Lets TLC compare observations with the specification.
    Returns [(case index, problems)], the TLC result, number of compared cases."""
    idx = sorted(obs)
    cpath = os.path.join(work, "cases.ndjson")
    with open(cpath, "w") as f:
        for n in idx:
            # What is returned does not matter for C08 (and may be nested too deeply).
            x = {"op": cases[n]["op"], "obs": {"r": obs[n]["r"]}} if prop == "C08" else dict(cases[n], obs=obs[n])
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    gpath = os.path.join(work, "grammars.ndjson")
    env = {"MBT_PROPERTY": prop, "MBT_GRAMMARS": gpath, "MBT_CASES": cpath}
    env.update(extra_env or {})
    r = tlc(module, "Conf.cfg", env, timeout=timeout)
    if not r.completed:
        raise ToolError("TLC failed on %s:\n%s" % (module, plain(r.out)[-4000:]))
    if r.distinct != len(idx) + min(64, len(idx)):
        raise ToolError("TLC compared %d of %d cases" % (r.distinct - min(64, len(idx)), len(idx)))
    bad = []
    text = re.sub(r"\s+", " ", r.out)
    for m in re.finditer(r'<< ?"MISMATCH", (\d+), <<(.*?)>> ?>>', text):
        bad.append((idx[int(m.group(1)) - 1], re.findall(r'"([^"]*)"', m.group(2))))
    if len(bad) != text.count('"MISMATCH"'):
        raise ToolError("cannot read what TLC found:\n" + plain(r.out)[-3000:])
    return sorted(bad), r, len(idx)

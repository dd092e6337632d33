#!/usr/bin/env python3
"""Decides one property: ./check.py C01   (environment: VERIF_TIER, VERIF_SEED)
Shows a saved violation again: ./check.py --replay FILE"""
import json, os, random, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mbt"))
import run, plans
from run import VERIF, ToolError

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
FINDINGS = os.path.join(VERIF, "known-findings.txt")

def findings(prop):
    """Listed findings: [(what fails, saved case)]."""
    out = []
    for l in open(FINDINGS):
        if l.startswith("finding: property=%s " % prop):
            f, what = l.split(" ", 2)[2].strip().split(" ", 1)
            x = json.load(open(os.path.join(VERIF, f.split("=", 1)[1])))
            if x.pop("runs", False):   # a long text, as runs of characters
                x["case"]["t"] = [c for c, n in x["case"]["t"] for _ in range(n)]
            out.append((what, x))
    return out

def inline(grammars, case):
    """A case with just its own grammars."""
    c = json.loads(json.dumps(case))
    gs = []
    if "g" in c:
        gs.append(grammars[c["g"] - 1]); c["g"] = 1
    for i, g in enumerate(c.get("gs", [])):
        gs.append(grammars[g[0] - 1]); g[0] = len(gs)
    return {"case": c, "grammars": gs}

def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)

def text_of(c):
    """For people: the texts of a case."""
    out = {}
    for f in ("t", "gt", "msg"):
        if f in c: out[f] = "".join(map(chr, c[f]))
    if "docs" in c: out["docs"] = ["".join(map(chr, t)) for t in c["docs"]]
    return out

def sample(grammars, case, obs):
    s = {"op": case["op"], "result": obs["r"]}
    s.update({k: v if len(v) < 300 else v[:300] for k, v in text_of(case).items()})
    if "g" in case: s["grammar"] = json.dumps(grammars[case["g"] - 1]["rules"])[:400]
    for f in ("data", "script", "chain"):
        if f in case: s[f] = json.dumps(case[f])[:400]
    if case["op"] == "history": s["threads"] = [[x["do"] for x in l] for l in case["threads"]]
    return s

class Report:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.states = self.transitions = self.traces = self.accepted = self.rejected = 0
        self.ops, self.models, self.samples, self.keys = {}, [], [], set()
        self.kinds = {}
        self.violations = []
        self.left_out = self.told = self.cut = 0

    def evidence(self):
        plan = plans.PLANS[self.prop]
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "distinct_nontrivial": len(self.keys),
               "rule": "A case is counted once per operation, grammar and input; trivial are cases with an empty input. " + plan["about"],
               "samples": self.samples, "cases_by_operation": self.ops, "successful": self.accepted, "rejected": self.rejected,
               "rules_used_in_grammars": self.kinds, "behaviours_of_the_specification_replayed": self.told, "models": self.models}
        if self.cut: cov["round_given_up_after_time_limit"] = self.cut
        if self.left_out: cov["left_out_after_crashes"] = self.left_out
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": cov, "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".new", "w") as f: json.dump(ev, f, indent=1)
        os.replace(p + ".new", p)

    def compared(self, grammars, cases, obs, tlc):
        self.states += tlc.distinct
        self.transitions += tlc.generated
        self.traces += len(obs)
        for n, o in obs.items():
            c = cases[n]
            self.ops[c["op"]] = self.ops.get(c["op"], 0) + 1
            if o["r"] == "ok": self.accepted += 1
            else: self.rejected += 1
            if c.get("t", [0]) or c.get("pre"):
                self.keys.add(hash(json.dumps(c, sort_keys=True)))
        for g in grammars:
            for r in g["rules"]:
                for x in plans.walk(r): self.kinds[x["k"]] = self.kinds.get(x["k"], 0) + 1
        if len(self.samples) < 6 and obs:
            for n in random.Random(SEED).sample(sorted(obs), min(3, len(obs))):
                self.samples.append(sample(grammars, cases[n], obs[n]))

def compare(rep, batch, known, work, fresh=False, timeout=600):
    """Runs cases and has TLC compare them; returns whether all is well."""
    chunk = 40000
    for a in range(0, len(batch.cases), chunk):
        cases = batch.cases[a:a + chunk]
        obs = run.execute(batch.grammars, cases, work, fresh=fresh)
        bad, res, _ = run.conform("Conf", rep.prop, batch.grammars, cases, obs, work, timeout=timeout)
        rep.compared(batch.grammars if a == 0 else [], cases, obs, res)
        rep.left_out += len(cases) - len(obs)
        for i, problems in bad:
            x = inline(batch.grammars, cases[i])
            if any(same(x, k) for _, k in known): continue
            rep.violations.append((len(json.dumps(x)), problems, x, obs[i]))
        if rep.left_out and not rep.violations:
            raise ToolError("cases are missing although none is wrong")
    return not rep.violations

def shows(o, told):
    """Is what the specification tells in an observation? It need not tell everything."""
    if isinstance(told, dict): return isinstance(o, dict) and all(k in o and shows(o[k], told[k]) for k in told)
    if isinstance(told, list): return isinstance(o, list) and len(o) == len(told) and all(map(shows, o, told))
    return o == told

def differs(told, o):
    """What of a behaviour that the specification tells was not observed."""
    return ["%s differs from the behaviour of the specification" % k for k in told if not (k in o and shows(o[k], told[k]))]

def replay_told(rep, out, known, work):
    """Behaviours that TLC generated from the specification, replayed on the code.
    Where it says what to do but leaves open what exactly is to be seen, TLC compares."""
    batch, open_ = plans.Cases(), plans.Cases()
    for l in out.split("\n"):
        if not l.startswith('"{'): continue
        c = json.loads(json.loads(l))
        to = batch if "told" in c else open_
        if "rules" in c: c["g"] = to.grammar({"rules": c.pop("rules")})
        if "grammars" in c: c["gs"] = [[to.grammar({"rules": r}), 0] for r in c.pop("grammars")]
        to.add(**c)
    if open_.cases: compare(rep, open_, known, work)
    rep.told += len(open_.cases)
    if not batch.cases: return
    obs = run.execute(batch.grammars, batch.cases, work, fresh="fresh" in batch.cases[0])
    for i, o in sorted(obs.items()):
        problems = differs(batch.cases[i]["told"], o)
        if problems:
            x = inline(batch.grammars, batch.cases[i])
            rep.violations.append((len(json.dumps(x)), problems, x, o))
    rep.traces += len(obs)
    rep.told += len(obs)
    if len(obs) < len(batch.cases) and not rep.violations: raise ToolError("cases are missing although none is wrong")

def check(prop):
    plan = plans.PLANS[prop]
    rep = Report(prop)
    run.build()
    known = findings(prop)
    work = tempfile.mkdtemp(prefix="mbt-")
    try:
        # The listed findings: still there?
        for what, x in known:
            obs = run.execute(x["grammars"], [x["case"]], work)
            if obs[0]["r"] in ("panic", "hang", "crash"): there = True
            else:
                bad, res, _ = run.conform("Conf", prop, x["grammars"], [x["case"]], obs, work)
                there = bool(bad)
            if there: print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        thorough = TIER == "thorough"
        some = None
        for module, cfg, env in plan["models"](thorough):
            if "MBT_GIVEN" in env:    # grammars and documents like those below, for the step machine
                if some is None:
                    some = plans.Cases()
                    plan["cases"](some, random.Random("%s %d given" % (prop, SEED)), 4 if thorough else 1, 1)
                    some = plans.taken(some, max(int(e.get("MBT_GIVEN", 0)) for _, _, e in plan["models"](thorough)), random.Random("%s %d taken" % (prop, SEED)))
                path = os.path.join(work, "given.ndjson")
                with open(path, "w") as f:
                    for x in some[:env["MBT_GIVEN"]]: f.write(json.dumps(x) + "\n")
                bounds, env = dict(env, MBT_GIVEN="%d grammars and documents" % len(some[:env["MBT_GIVEN"]])), dict(env, MBT_GIVEN=path)
            else: bounds = env
            r = run.tlc(module, cfg, env, timeout=3000 if thorough else 600)
            if not r.completed:
                raise ToolError("the model %s does not check:\n%s" % (module, run.plain(r.out)[-4000:]))
            rep.states += r.distinct; rep.transitions += r.generated
            if "MBT_TELL" in env: replay_told(rep, r.out, known, work)
            rep.models.append({"module": module, "config": cfg, "bounds": bounds, "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        # A quick check goes round again as long as it is quick.
        budget = float(os.environ.get("MBT_BUDGET", "600" if thorough else "30"))
        rnd = 0
        while not rep.violations:
            rng = random.Random("%s %d %d" % (prop, SEED, rnd))
            batch = plans.Cases()
            plan["cases"](batch, rng, 4 if thorough else 1, rnd)
            limit = 3000 if thorough else 600 if rnd == 0 else 150
            try:
                ok = compare(rep, batch, known, work, timeout=limit)
                if ok and "fresh" in plan:
                    batch = plans.Cases()
                    plan["fresh"](batch, rng, 4 if thorough else 1, rnd)
                    ok = compare(rep, batch, known, work, fresh=True, timeout=limit)
            except run.TooLong:
                if rnd == 0: raise
                rep.cut = rnd      # one more round was more than there was time for
                break
            rnd += 1
            if not ok or time.time() - rep.t0 > budget: break
        if rep.violations:
            rep.violations.sort(key=lambda v: v[0])
            _, problems, x, obs = rep.violations[0]
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, prop + ".json")
            with open(p, "w") as f: json.dump(dict(x, property=prop, problems=problems, observed=obs, text=text_of(x["case"])), f, indent=1)
            print("%d of %d cases differ; the smallest: %s" % (len(rep.violations), rep.traces, "; ".join(problems)))
            print(json.dumps(text_of(x["case"]), ensure_ascii=True)[:600])
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        rep.evidence()
        return 1 if rep.violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(path):
    x = json.load(open(path))
    run.build()
    work = tempfile.mkdtemp(prefix="mbt-")
    try:
        obs = run.execute(x["grammars"], [x["case"]], work)
        print("observed:", json.dumps(obs[0]))
        if "told" in x["case"]:
            print("specified:", json.dumps(x["case"]["told"]))
            return 1 if differs(x["case"]["told"], obs[0]) else 0
        bad, res, _ = run.conform("Conf", x["property"], x["grammars"], [x["case"]], obs, work, extra_env={"MBT_SHOW": "1"})
        print(run.plain(res.out))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:   # the same cases for the same seed
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        if sys.argv[1] == "--setup":
            run.build(); sys.exit(0)
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else check(sys.argv[1]))
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)

"""Generators of grammars and documents: small worlds gone through completely,
and random ones.  A case is a plain dictionary; see harness/src/main.rs."""
import itertools
from rules import *
import rules as R
import cost

class Cases:
    """Collects grammars (numbered from 1) and cases."""
    def __init__(self):
        self.grammars, self.cases, self._known = [], [], {}
    def grammar(self, g):
        key = repr(g)
        if key not in self._known:
            self.grammars.append(g)
            self._known[key] = len(self.grammars)
        return self._known[key]
    def parse(self, g, t, **more):
        if cost.dear(g["rules"], cp(t)): return
        n = self.grammar(g)
        self.cases.append(dict({"op": "parse", "g": n, "t": cp(t)}, **more))
    def add(self, **c):
        if c["op"] in ("parse", "rule") and cost.dear(self.grammars[c["g"] - 1]["rules"], c["t"], c.get("rule"), c.get("at", 0)): return
        self.cases.append(c)

def texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)

# ------------------------------------------------------------- small worlds
def leaves():
    """Every leaf with every flag, and the characters that matter to it."""
    out = []
    for p in (None, "p"):
        for opt_ in (False, True):
            out.append((ws(opt_), "a \n\u00a0"))
            for any_ in ("", ",", "é("):
                out.append((ua(any_, p, opt_), "a,é \n"))
                out.append((uaw(any_, p, opt_), "a,é \n"))
            out.append((text(p, opt_), "\"\\na"))
            out.append((num(p, opt_), "1-.e_"))
        for t in ("a", "ab", "é", "aé", ""):
            for no_ in (False, True):
                for inv in (False, True):
                    out.append((tag(t, p, no=no_, inv=inv), "abéê"))
    return out

def combos(xs, ys=None):
    """Every composition of small parts."""
    ys = ys or xs
    b = (False, True)
    for x in xs:
        yield opt(x)
        yield no(x)
        for o in b:
            yield rep(x, o)
            yield lines(x, o)
        for y in ys:
            yield seq(x, y)
            yield sel(x, y)
            for o in b:
                for tr in b:
                    yield sep(x, y, o, tr)

def small_world(n_leaf, n_combo, out=None):
    out = out or Cases()
    for r, alpha in leaves():
        for t in texts(alpha, n_leaf):
            out.parse(grammar(r), t)
    xs = [tag("a", "p"), tag("ab", "q"), tag("b", None, no=True), tag("", "e"), opt(tag("b", "o")), uaw("b", "u")]
    for r in combos(xs):
        lined = r["k"] == "lines"
        for t in texts("ab\n" if lined else "ab", n_combo):
            out.parse(grammar(r), t)
        if not lined:
            for t in texts("ab", n_combo - 1):
                out.parse(grammar(seq(opt(tag("a", "z")), r, ua("", "rest", True))), t)
                out.parse(grammar(r, sel(seq(node(1, "n"), tag("b", "z")), node(1, "m"), ua("", "rest", True))), t)
    return out

def confusable(rng, n, out=None):
    """Leaves, alone and between others, and documents in which characters are
    exchanged for ones that look alike; what is required at the very end."""
    out = out or Cases()
    for _ in range(n):
        leaf = lambda: rng.choice([tag(rng.choice(["\n", " ", "\t", "a\n", "\r\n", "ab", "a b", "é", "i", "-", "日", "\"", "x\ny", "if"]), "p", no=rng.random() < .1, inv=rng.random() < .2), ws(rng.random() < .4),
                                   ua(rng.choice(["\n", " ", "é", "i", "\""]), "u", rng.random() < .4), uaw(rng.choice(["", "é", "i", ","]), "w", rng.random() < .4), text("t", rng.random() < .5), num("d", rng.random() < .5)])
        r = rng.choice([leaf(), seq(leaf(), leaf()), seq(leaf(), ws(False)), seq(opt(leaf()), ua("", "rest", True)), rep(leaf()), sel(leaf(), leaf(), ua("", "rest", True)), sep(leaf(), leaf(), True, True),
                        seq(leaf(), leaf(), leaf()), lines(leaf(), rng.random() < .5)])
        g = grammar(r)
        seen = set()
        for _ in range(6):
            t = R.sample(rng, g["rules"], r, 6)[:12]
            for x in (t, R.confused(rng, t)):
                if x not in seen: seen.add(x); out.parse(g, x, opt=rng.choice([0, 0, 0, 1]))
    return out

def random_documents(rng, ngrammars, per, out=None, depth=3, want=None, **more):
    out = out or Cases()
    made = 0
    while made < ngrammars:
        g = rand_grammar(rng, depth)
        if want and not any(want(x) for r in g["rules"] for x in walk(r)): continue
        made += 1
        seen = set()
        for _ in range(per):
            t = rand_text(rng, g["rules"], rng.choice([6, 14, 14, 14, 14, 24, 24, 90]))
            if t in seen: continue
            seen.add(t)
            x = dict(more)
            if any(y["k"] == "lines" for r in g["rules"] for y in walk(r)):
                if rng.random() < .4:
                    x.update(tab=rng.choice([1, 2, 3, 4, 8]), align=rng.random() < .6, ind=rng.choice([0, 0, 0, 1, 2]))
            out.parse(g, t, **x)
    return out

# --------------------------------------------------- attempts that are given up
def traces(rng):
    """Rules that match and leave something behind, to be given up later."""
    return [tag("a", "p"), seq(tag("a", "p"), tag("a", "q")), rep(tag("a", "p"), False),
            rep(seq(tag("a", "p"), opt(tag("b", "q")))), sep(tag("a", "p"), tag(",", "c"), False, True),
            sep(seq(tag("a", "p"), tag("a", "q")), tag(",", "c"), True, False),
            seq(opt(tag("a", "p")), no(tag("b", "q")), opt(tag(",", "c"))),
            lines(tag("a", "p"), True), lines(seq(tag("a", "p"), lines(tag("b", "q"), True)), True),
            lines(tag("a", "p"), False), seq(tag("a", "p"), lines(tag("a", "q"), True)),
            text("p"), num("p", True), ua(",", "p"), uaw("b", "p"), ws(False), node(1, "n"), node(1)]

def given_up(rng, n_texts, out=None, alpha="ab,\n "):
    """What was tried first shows in nothing that follows."""
    out = out or Cases()
    inner = [seq(tag("a", "i"), opt(tag("b", "j"))), seq(tag("a", "i"), lines(tag("b", "j"), True))]
    fallbacks = [ua("", "rest", True), seq(rep(sel(tag("a", "A"), tag("b", "B"), tag(",", "C"), ws(False)), True)),
                 seq(ws(True), lines(tag("a", "A"), True), ws(True)),
                 lines(seq(tag("a", "A"), opt(lines(tag("b", "B"), True))), True)]
    for x in traces(rng):
        for stop in (tag("!"), tag("b", "s"), sep(tag("b", "s"), tag("!"), False, False)):
            tops = [lambda f: sel(seq(x, stop), f),
                    lambda f: seq(opt(seq(x, stop)), f),
                    lambda f: seq(rep(seq(x, stop), True), f),
                    lambda f: seq(no(seq(x, stop)), f),
                    lambda f: seq(sep(seq(x, stop), tag(",", "by"), True, True), f),
                    lambda f: seq(sep(tag("a", "k"), seq(x, stop), True, False), f),
                    lambda f: seq(sel(seq(no(no(x)), stop), tag("a", "k")), f)]
            for top in tops:
                g = grammar(rng.choice(inner), top(rng.choice(fallbacks)))
                for _ in range(n_texts):
                    k = rng.randint(1, 7)
                    out.parse(g, "".join(rng.choices(alpha, (6, 3, 2, 2, 2))[0] for _ in range(k)))
    return out

def random_items(rng, n, upto=3):
    return [rand_item(rng, upto) for _ in range(n)]

def rand_item(rng, upto=3):
    t = rng.choice(["start", "end", "bool", "str", "f64"])
    v = {"bool": [rng.randint(0, 1)], "str": cp(rng.choice(["", "x", "é"])), "f64": [0, 5, 0]}.get(t, [])
    return {"t": t, "n": cp(rng.choice(["z", "y", "p"])), "v": v, "o": 0, "e": rng.randint(0, upto)}

def rule_calls(rng, ngrammars, per, out=None, depth=3):
    """Rules called in the middle of a document and of a collection, behind
    whose cursor there are leftovers of earlier attempts."""
    out = out or Cases()
    for _ in range(ngrammars):
        g = rand_grammar(rng, depth)
        n = out.grammar(g)
        rs = [x for r in g["rules"] for x in walk(r)]
        for _ in range(per):
            t = rand_text(rng, g["rules"], 12)
            buf = random_items(rng, rng.randint(0, 4))
            # Offsets are arbitrary; they only have to be kept.
            c = {"op": "rule", "g": n, "t": cp(t), "rule": rng.choice(rs), "at": rng.randint(0, min(3, len(t))),
                 "buf": buf, "state": rng.randint(0, len(buf)), "ind": rng.choice([0, 0, 1, 3])}
            if rng.random() < .3: c.update(tab=rng.choice([1, 2, 8]), align=rng.random() < .5)
            out.add(**c)
    return out

def swollen(rng, g, ts, ks=(40, 64, 65, 100, 129, 256, 300)):
    """The same with some characters made into long runs, in the rules and in
    the documents alike."""
    has = sorted({chr(c) for r in g["rules"] for x in walk(r) if x["k"] == "tag" for c in x["text"]} | set("".join(ts)))
    has = [c for c in has if c not in "\"\\+-._eE" and not c.isdigit()]
    if not has: return None
    runs = {c: c * rng.choice(ks) for c in rng.sample(has, min(len(has), rng.choice([1, 1, 2])))}
    wide = lambda t: "".join(runs.get(c, c) for c in t)
    g = dict(g, rules=[copy(r) for r in g["rules"]])
    for r in g["rules"]:
        for x in walk(r):
            if x["k"] == "tag": x["text"] = cp(wide("".join(map(chr, x["text"]))))
    return g, [wide(t) for t in ts]

def swell(rng, out, n, longest=1500):
    """Some of the cases so far once more, swollen."""
    by = {}
    for c in out.cases:
        if c["op"] == "parse" and 0 < len(c["t"]) < 40 and not c.get("pre"): by.setdefault(c["g"], []).append(c)
    for k in rng.sample(sorted(by), min(n, len(by))):
        cs = rng.sample(by[k], min(4, len(by[k])))
        x = swollen(rng, out.grammars[k - 1], ["".join(map(chr, c["t"])) for c in cs])
        if x:
            for c, t in zip(cs, x[1]):
                if len(t) <= longest: out.parse(x[0], t, **{f: v for f, v in c.items() if f in ("opt", "tab", "align", "ind")})
    return out

def oddly(rng, out, n, longest=200):
    """Some of the cases so far once more, with an odd character somewhere; in
    the rules as well, at times."""
    cs = [c for c in out.cases if c["op"] == "parse" and len(c["t"]) < longest and not c.get("pre")]
    for c in rng.sample(cs, min(n, len(cs))):
        g, t = out.grammars[c["g"] - 1], "".join(map(chr, c["t"]))
        x = R.strange(rng, t)
        more = {f: v for f, v in c.items() if f in ("opt", "tab", "align", "ind")}
        tags = [i for i, r in enumerate(g["rules"]) for y in walk(r) if y["k"] == "tag"]
        if tags and rng.random() < .15:
            odd = cp(rng.choice(R.STRANGE))
            at = rng.choice(["start", "end"])
            g = dict(g, rules=[copy(r) for r in g["rules"]])
            y = rng.choice([y for r in g["rules"] for y in walk(r) if y["k"] == "tag"])
            y["text"] = odd + y["text"] if at == "start" else y["text"] + odd
        if not left_recursive(g["rules"]): out.parse(g, x, **more)
    return out

# ----------------------------------------------------------------- left overs
def left_over(rng, n, out=None):
    """Documents that go on after the rules have matched."""
    out = out or Cases()
    scripts = ["é", "日本", "ß", "a", "\U0001f600", "Ж"]
    tails = ["", "é", "x", " ", "\n", "日", "\U0001f600", "!", "éé", "日日日", " x", "\u00a0", "\0", "a"]
    for _ in range(n):
        word = "".join(rng.choice(scripts) for _ in range(rng.randint(1, 6)))
        k = rng.randint(1, 4)
        forms = [(tag(word, "p"), word), (rep(tag(word, "p")), word * k),
                 (sep(tag(word, "p"), tag("é")), "é".join([word] * k)),
                 (sep(tag(word, "p"), tag("é"), True, True), "é".join([word] * k) + "é"),
                 (seq(text("p"), opt(ws())), "\"%s\"" % word), (seq(num("p"), tag(word)), "12" + word),
                 (uaw("x", "p"), word.replace("x", "")), (ua(" ", "p"), word), (ua("!\n", "p", True), word),
                 (lines(tag(word, "p"), rng.random() < .5), "\n".join([word] * k)),
                 (sel(tag(word + word, "p"), tag(word, "q")), word), (opt(tag(word, "p")), word),
                 (no(tag(word)), ""), (seq(), ""), (ws(True), " " * k), (tag(word, "q", no=True), "")]
        r, t = rng.choice(forms)
        for tail in rng.sample(tails, 4):
            out.parse(rng.choice([grammar(r), grammar(r, node(1, "n"))]), t + tail)
        if t: out.parse(grammar(r), t[:-1])
    for k in (60, 200, 900):
        for c in "aé日":
            out.parse(grammar(rep(tag(c))), c * k)
            out.parse(grammar(rep(tag(c))), c * k + "!")
            out.parse(grammar(ua("!", "p")), c * k)
            out.parse(grammar(ua("!", "p")), c * k + "!")
    return out

# ------------------------------------------------------------------ nodes
def trees(rng, n, out=None):
    """Named nodes in nodes; some empty, some around repetitions and lines."""
    out = out or Cases()
    for _ in range(n):
        word = lambda: rng.choice([tag("a", "p"), uaw("(),;", "w"), text("s"), num("n", True), tag("é", "e"), ws(True),
                                   tag("b", "no", inv=True), tag("!", "q", no=True), ua("(),;\n", "u", True)])
        def body(d):
            x = rng.random()
            if d == 0 or x < .3: return word()
            if x < .5: return seq(*[body(d - 1) for _ in range(rng.randint(1, 3))])
            if x < .6: return sel(body(d - 1), body(d - 1))
            if x < .7: return sep(body(d - 1), tag(rng.choice(",;"), rng.choice([None, "c"])), rng.random() < .7, rng.random() < .5)
            if x < .8: return opt(body(d - 1))
            return node(1, rng.choice(["n", "m", "é"])) if x < .9 else seq(tag("("), node(2, rng.choice(["x", None])), tag(")"))
        rs = [seq(tag("("), opt(body(2)), tag(")")), body(2), seq(opt(node(1, "first")), node(2, "second"), opt(ws()))]
        if rng.random() < .3: rs.append(lines(node(3, "line"), rng.random() < .5))
        if left_recursive(rs) or sum(size(r) for r in rs) > 40: continue
        g = grammar(*rs)
        for _ in range(6):
            out.parse(g, rand_text(rng, g["rules"], rng.choice([30, 30, 60, 150])), pre=random_items(rng, rng.choice([0, 0, 2])))
    return out

# ---------------------------------------------------- collections in use
def collections_in_use(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        g = rand_grammar(rng, 3)
        for _ in range(3):
            t = rand_text(rng, g["rules"])
            pre = random_items(rng, rng.choice([1, 1, 2, 5, 9]))
            opt_ = rng.choice([0, 1, 2])
            for p in ([], pre):
                out.parse(g, t, pre=p, opt=opt_)
    return out

def full(rng, sizes, out=None, per=4):
    """Collections that hold very many items already, with no room left or some."""
    out = out or Cases()
    for k in sizes:
        for _ in range(per):
            g = rand_grammar(rng, 2) if rng.random() < .5 else tried_grammar(rng)
            pre = random_items(rng, rng.choice([1, 2, 3]))
            n = max(1, (k + rng.choice([-2, -1, 0, 0, 0, 1])) // len(pre))
            out.parse(g, rand_text(rng, g["rules"]), pre=pre, pre_times=n, room=rng.choice([0, 0, 0, 1, 2, 100]), opt=rng.choice([0, 1]))
    return out

def tried_grammar(rng):
    """Something tried and given up first, then read."""
    x = rng.choice([tag("a", "p"), seq(tag("a", "p"), tag("a", "q")), rep(tag("a", "p"), False), lines(tag("a", "p"), True), text("p"), num("p"), tag("b", "p", inv=True), node(1, "n")])
    y = rng.choice([x, tag("a", "p"), ua("", "p", True), rep(sel(tag("a", "p"), tag("b", "q")), True), seq(opt(node(1, "n")), ua("", "r", True))])
    top = rng.choice([sel(seq(x, tag("!")), y), seq(opt(seq(x, tag("!"))), y), seq(no(seq(x, tag("!"))), y), seq(rep(seq(x, tag("!")), True), y), sel(x, y)])
    return grammar(seq(tag("a", "i"), opt(tag("b", "j"))), top)

def into_one(rng, n, out=None, ngrammars=3, calls=5, threads=1):
    """Documents parsed one after another into one collection."""
    out = out or Cases()
    for _ in range(n):
        gs = [rand_grammar(rng, 2) if rng.random() < .5 else tried_grammar(rng) for _ in range(ngrammars)]
        nums = [[out.grammar(g), rng.choice([0, 1, 2])] for g in gs]
        lists = []
        for _ in range(threads):
            l = []
            while len(l) < calls:
                k = rng.randrange(len(gs))
                t = cp(rand_text(rng, gs[k]["rules"]))
                for _ in range(rng.choice([1, 1, 1, 2, 3])):   # the same again
                    l.append({"do": "into", "g": k + 1, "t": t})
            lists.append(l)
        more = {}
        if rng.random() < .1: more = {"held": random_items(rng, 1), "pre_times": rng.choice([1, 20, 255, 256, 4095, 32766]), "room": rng.choice([0, 0, 3])}
        out.add(op="history", gs=nums, threads=lists, **more)
    return out

# --------------------------------------------------------------- fast choices
WORDS = ["a", "b", "c", "ab", "ac", "é", "ê", "è", "éa", "日", "旦", "\U0001f600", "\U0001f601", "Ж", "ж", "(", "1", "ca"]

def choice_args(rng, k, depth=2):
    def leaf():
        x = rng.random()
        if depth and rng.random() < .1: return sel(*choice_args(rng, rng.choice([2, 2, 3]), depth - 1))
        w = rng.choice(WORDS)
        t = tag(w, rng.choice(["p", "q", w]))
        if x < .55: return t
        if x < .62: return seq(t, opt(tag(rng.choice(WORDS), "s")))
        if x < .66: return rep(t, rng.random() < .4)
        if x < .72: return sep(t, tag(",", "c"), rng.random() < .4, rng.random() < .5)
        if x < .76: return node(1, rng.choice(["n", None]))
        if x < .80: return text("t", rng.random() < .5)
        if x < .83: return no(no(t))
        if x < .86: return sel(t)
        if x < .89: return tag(w, "no", no=True)
        if x < .91: return num("d")
        if x < .93: return uaw("b", "w")
        if x < .95: return opt(t)
        if x < .97: return seq(seq(seq(t)))
        return ws(rng.random() < .5)
    return [leaf() for _ in range(k)]

def choices(rng, n, out=None, levels=(1, 2)):
    out = out or Cases()
    made = 0
    while made < n:
        shared = rng.choice([seq(tag(rng.choice(WORDS), "s"), opt(tag("b", "o"))), seq(tag(rng.choice(WORDS), "s"), opt(tag("b", "o"))), ua(",!", "s"), uaw("é", "s", True),
                             seq(opt(tag("a", "s")), tag("b", "o")), sel(tag("a", "s"), ua("!", "o")), ws(True)])
        c = sel(*choice_args(rng, rng.choice([2, 2, 3, 3, 4, 5, 6])))
        if rng.random() < .2: c = sel(tag("x", "x"), sel(*c["args"]), *choice_args(rng, 1))
        top = rng.choice([lambda x: x, lambda x: rep(x, True), lambda x: seq(x, ua("", "rest", True)), lambda x: opt(x),
                          lambda x: sep(x, tag(","), True, rng.random() < .5), lambda x: lines(x, True),
                          lambda x: seq(no(x), ua("", "rest", True)), lambda x: seq(opt(tag("a", "z")), x, opt(x)),
                          lambda x: sel(x, tag("ab", "z"))])(c)
        g = grammar(shared, top)
        if left_recursive(g["rules"]): continue
        made += 1
        ts = {""}
        for _ in range(4): ts.add(rand_text(rng, g["rules"], 10))
        for _ in range(3): ts.add("".join(rng.choice(WORDS + [",", "\"", "\n"]) for _ in range(rng.randint(1, 3))))
        for t in sorted(ts):
            for o in levels: out.parse(g, t, opt=o)
    return out

def first_parts():
    """Ways for an alternative to start: with something, with anything, with nothing."""
    b = (False, True)
    some = [tag("a", "p"), tag("é", "p"), num("d"), text("t"), ws(False), node(1, "n"), node(2, "m"), ua("b", "u"), uaw("b", "w")]
    none = [ws(True), opt(tag("a", "o")), opt(node(1)), no(tag("b")), no(tag("a")), no(no(tag("a"))), tag("b", None, no=True), tag("a", "x", no=True), tag("", "e"), ua("b", "u", True), uaw("b", "w", True), seq(), sel(),
            rep(tag("a"), True), sep(tag("a"), tag(","), True, True), lines(tag("a", "l")), lines(tag("a", "l"), True), text("t", True), node(3), rep(ws(True), True), seq(opt(tag("a")), ws(True))]
    one = [lambda x: x, lambda x: seq(x, tag("b", "z")), lambda x: seq(x, opt(tag("a", "z"))), lambda x: sel(x), lambda x: rep(x), lambda x: rep(x, True), lambda x: sep(x, tag(",", "c"), False, False), lambda x: sep(x, tag(","), False, True), lambda x: sep(x, tag(","), True, False),
           lambda x: lines(x), lambda x: lines(x, True), lambda x: opt(x), lambda x: no(x), lambda x: seq(seq(x, tag("b")), tag("a"))]
    out = [f(x) for x in some + none for f in one]
    for x in none:
        for y in some[:7] + none[:4]:
            out += [seq(x, y), seq(x, y, tag("b", "z"))]
            out += [sep(y, x, False, t) for t in b] + [sep(x, y, False, t) for t in b]
    for x in some:
        for y in some + none:
            out += [sel(x, y), sel(y, x), sel(x, x, y)]
    return out

def starts(rng, n, out=None, levels=(1, 2), per=6):
    """Choices between each of these and others."""
    out = out or Cases()
    every = first_parts()
    if n < len(every): every = rng.sample(every, n)
    nodes = [seq(tag("a", "s"), opt(tag("b", "o"))), sel(tag("b", "s"), ua("!,", "o")), seq(ws(True), tag("a", "w"))]
    for x in every:
        others = [tag(rng.choice(["a", "b", "é", "ab", " ", "ba"]), "z"), tag(rng.choice(["b", "ê", ",", "!"]), "y")]
        c = rng.choice([lambda: sel(x, *others), lambda: sel(others[0], x, others[1]), lambda: sel(*(others + [x])), lambda: sel(x, others[0]), lambda: sel(others[0], x), lambda: sel(others[0], x, others[0]),
                        lambda: sel(x, rng.choice(every)), lambda: sel(others[0], rng.choice(every), x)])()
        g = grammar(*(nodes + [rng.choice([lambda: c, lambda: seq(c, ua("", "rest", True)), lambda: seq(opt(tag("!")), rep(c, True), ua("", "rest", True))])()]))
        if left_recursive(g["rules"]): continue
        ts = {"", "a", "b"}
        for y in c["args"]: ts.update(R.sample(rng, g["rules"], y, 6)[:8] for _ in range(2))
        ts.update("".join(rng.choice("ab é,!1\"") for _ in range(rng.randint(1, 3))) for _ in range(per - 4))
        for t in sorted(ts): out.parse(g, t, opt=rng.choice(levels))
    return out

def long_choices(rng, n, out=None, levels=(1, 2)):
    """Alternatives that fail late, before others that would match less, more or anything."""
    out = out or Cases()
    cs = "abcé日"
    for _ in range(n):
        words = ["".join(rng.choice(cs[:rng.choice([2, 3, 5])]) for _ in range(rng.randint(2, 6))) for _ in range(rng.randint(2, 5))]
        if rng.random() < .5: words[1] = words[0][:rng.randint(1, len(words[0]))] + words[1]
        def alt(i, w):
            x = rng.random()
            if x < .3: return seq(*[tag(c, "%s%d" % (c, i)) for c in w])
            if x < .5:
                k = rng.randint(1, len(w) - 1)
                return seq(tag(w[:k], "h%d" % i), tag(w[k:], "t%d" % i))
            if x < .6: return seq(tag(w[0], "h%d" % i), lines(tag(w[1], "l%d" % i), rng.random() < .5), tag(w[1:]))
            if x < .7: return seq(rep(tag(w[0], "r%d" % i)), tag(w[1:]))
            if x < .8: return sep(tag(w[0], "s%d" % i), tag(w[1:], "c"), False, rng.random() < .5)
            if x < .9: return seq(node(1, "n%d" % i), tag(w))
            return tag(w, "w%d" % i)
        args = [alt(i, w) for i, w in enumerate(words)]
        tail = rng.choice([[], [ua("", "any", True)], [ua("", "any")], [uaw("", "any")], [tag(words[0][0], "first")], [tag("", "none")], [opt(tag("a", "o"))], [ws(True)]])
        at = len(args) if rng.random() < .8 else rng.randint(0, len(args))
        c = sel(*(args[:at] + tail + args[at:]))
        top = rng.choice([c, c, seq(c, ua("", "rest", True)), rep(c, True), seq(opt(tag("x", "x")), c), seq(c, lines(tag("a", "A"), True), ua("", "rest", True))])
        g = grammar(seq(tag(rng.choice(words)[0], "s"), opt(tag("b", "o"))), top)
        if left_recursive(g["rules"]): continue
        ts = {""}
        for w in words:
            for k in range(1, len(w) + 1): ts.add(w[:k] + rng.choice(["", "", "a", "é", "!", "\n"]))
        for _ in range(2): ts.add("".join(rng.choice(words) for _ in range(2)))
        for t in sorted(ts):
            for o in levels: out.parse(g, t, opt=o)
    return out

def many_choices(rng, counts, out=None, levels=(1, 2), shown=10):
    """Choices with more alternatives than a byte can number, or a table hold."""
    out = out or Cases()
    def chars():
        # One of every first byte there is: 128 of one byte, 30 of two, 16 of three, 5 of four.
        c = [chr(x) for x in range(1, 128)]
        c += [chr(0x80 + 64 * k) for k in range(30)]
        c += [chr(0x800)] + [chr(0x1000 * k) for k in range(1, 16) if k != 13] + [chr(0xd000)]
        c += [chr(0x10000)] + [chr(0x40000 * k) for k in range(1, 5)]
        return c
    base = chars()
    for k in counts:
        c = [x for x in base if x not in " \n\t\r\x0b\x0c\x1c\x1d\x1e\x1f\u0085\u2000"]
        rng.shuffle(c)
        words = c[:k] + ["%s%d" % (rng.choice(c), i) for i in range(max(0, k - len(c)))]
        for shuffled in (False, True):
            w = list(words)
            if shuffled: rng.shuffle(w)
            args = [tag(x, str(i)) for i, x in enumerate(w)]
            for tail in ([], [uaw("", "any")], [tag("", "none")]):
                g = grammar(sel(*(args + tail)))
                picks = sorted(set([0, 1, len(w) - 1, len(w) - 2] + [i for i in (126, 127, 128, 129, 253, 254, 255, 256, 257) if i < len(w)]
                                   + [rng.randrange(len(w)) for _ in range(shown)]))
                for i in picks:
                    for t in (w[i], w[i] + "!"):
                        for o in levels: out.parse(g, t, opt=o)
                for o in levels:
                    out.parse(g, "", opt=o)
                    out.parse(g, "\uffff", opt=o)
    return out

"""Large inputs: sizes around which counters, tables and widths could end."""
from rules import *
from documents import Cases, rand_item
import documents as D, grammars as G, others as O

SIZES = [127, 128, 255, 256, 257, 300, 1000, 1024, 1025]

def documents(rng, sizes, out=None, per=6, deep=True):
    """Long repetitions, lists, lines, nodes within nodes."""
    out = out or Cases()
    for k in sizes:
        forms = [
            (rep(tag("a", "p")), "a" * k), (rep(seq(tag("a", "p"), opt(tag("b", "q")))), "ab" * (k // 2) + "a"),
            (sep(tag("a", "p"), tag(",", "c")), ",".join("a" * k)), (sep(tag("a", "p"), tag(","), True, True), "a," * k),
            (rep(sel(tag("b", "q"), tag("a", "p"))), "ab" * (k // 2)), (lines(tag("a", "p")), "a\n" * k), (lines(tag("a", "p"), True), "a\n" * k),
            (lines(tag("a", "p"), True), "  a\n" * (k - 1) + " a"), (seq(lines(tag("a", "p")), ws(True)), "a" + "\n" * k + "a\n"),
            (lines(seq(tag("a", "p"), ws(True), opt(tag("b", "q")))), "a\n" * (k // 2) + "a" + "\n" * (k // 2) + "b"),
            (seq(ws(False), tag("a", "p")), " " * k + "a"), (seq(ws(False), tag("a", "p")), "\n\u3000" * (k // 2) + "a"),
            (seq(*[tag(rng.choice("ab"), "p%d" % (i % 7)) for i in range(k)]), None),
            (ua("!", "u"), "é" * k), (uaw("!", "w"), "日a" * (k // 2)), (text("t"), "\"" + "a\\né" * (k // 3) + "\""), (text("t"), "\"" + "\\\\" * k + "\""),
            (tag("aé" * (k // 2), "long"), "aé" * (k // 2)), (tag("a" * k, "no", no=True), ""), (no(rep(tag("a"))), "a" * k),
            (rep(node(1, "n")), "x" * k), (rep(seq(num("d"), tag(","))), "12," * k), (rep(sep(tag("a", "p"), tag(","), False, False)), "a," * k + "a"),
            (sel(seq(rep(tag("a", "p")), tag("!")), rep(tag("a", "q"))), "a" * k),
            (seq(opt(seq(rep(tag("a", "p")), tag("!"))), rep(tag("a", "q"))), "a" * k),
        ]
        for r, t in rng.sample(forms, min(per, len(forms))):
            if t is None: t = "".join(chr(x["text"][0]) for x in r["args"])
            g = grammar(tag("x", "x"), r)
            for x in (t, t + "!", t[:-1]): out.parse(g, x, opt=rng.choice([0, 0, 1]), **({"pre": [rand_item(rng) for _ in range(k)]} if rng.random() < .2 else {}))
        if not deep: continue
        d = min(k, 300)
        g = grammar(sel(seq(tag("("), node(1, "n"), tag(")")), tag("x", "x")))
        for t in ("(" * d + "x" + ")" * d, "(" * d + "x" + ")" * (d - 1), "(" * d + "y"): out.parse(g, t, opt=rng.choice([0, 1]))
        g = grammar(sep(sel(seq(tag("["), opt(node(1, "l")), tag("]")), num("n")), tag(","), True, True))
        out.parse(g, "[" * d + "1," * 3 + "]" * d)
        r = tag("a", "p")
        for i in range(min(k, 120)): r = rng.choice([opt, lambda x: seq(x), lambda x: sel(x, tag("b", "q")), lambda x: no(no(x)), lambda x: rep(x, True), lambda x: sep(x, tag(","), True, True)])(r)
        for t in ("a", "aa", "b", "a,a", "!"): out.parse(grammar(seq(r, ua("", "rest", True))), t)
    return out

def loops(rng, sizes, out=None):
    """Very long lists of all three kinds."""
    out = out or Cases()
    b = lambda: rng.random() < .5
    for k in sizes:
        x = rng.choice([tag("a", "p"), seq(tag("a", "p"), opt(tag("b", "q"))), sel(tag("b", "q"), tag("a", "p")), node(1, "n"), tag("a"), uaw(",;", "w")])
        for r, t in [(rep(x, b()), "a"), (sep(x, tag(",", rng.choice([None, "c"])), b(), True), "a,"), (sep(x, tag(","), b(), b()), ",a"), (lines(x, b()), "a\n"), (rep(seq(tag("a", "p"), x), b()), "aa"),
                     (seq(opt(seq(rep(x), tag("!"))), rep(x)), "a")]:
            t = (t * k)[1 if t == ",a" else 0:]
            if x["k"] == "uaw" and t[:2] == "aa": continue
            out.parse(grammar(tag("a", "x"), r), t, opt=rng.choice([0, 1]))
            if b(): out.parse(grammar(tag("a", "x"), r), t + rng.choice(["!", ",!", "b", "\n!"]))
    return out

def far(rng, n, out=None, length=70000):
    """Something at the far end of a long document."""
    out = out or Cases()
    for _ in range(n):
        w = rng.choice(["x", "x", "é", "日", "\U0001f600", "x\n", " x"])
        k = rng.choice([length // len(w.encode()), 65535 // len(w.encode()) + rng.randint(0, 2), 32767 // len(w.encode()) + rng.randint(0, 2)])
        rest = rng.choice([seq(num("n"), opt(tag("!"))), seq(text("t"), opt(node(1, "n"))), lines(tag("a", "p"), True), rep(tag("a", "p")), tag("b", "q", no=True), sel(seq(tag("a", "p"), tag("b")), tag("a", "q")), ua("", "r", True)])
        g = grammar(tag("a", "i"), seq(rng.choice([ua("|", "head"), rep(seq(ua("|", "head")), True)]), tag("|"), rest))
        t = w * k + "|" + rng.choice(["12", "1e", "\"a\\u0041\"", "\"\\q\"", "a\na", "aa", "ab", "", "é", "a\n b", "x"])
        out.parse(g, t)
    return out

def columns(rng, out=None, far=False):
    """Blocks that stand far to the right, or deep."""
    out = out or Cases()
    gs = list(O.block_grammars())
    for g in gs[:2]:
        for c in (63, 64, 127, 128, 254, 255, 256, 257, 300, 511, 512) + ((65535, 65536) if g is gs[0] and far else ()):
            for lead in [" " * c] + ([("\t" * (c // 4) + " " * (c % 4))] if c < 600 else []):
                for t in (lead + "a\n" + lead + "b", "a\n" + lead + "b\n" + lead + "c\nd", lead + "a\n" + lead + " b\n" + lead + "c", "a\n" + lead + "b\n" + " " * (c % 256) + "c", "a\n" + lead + "b\n" + lead[:-1] + "c"):
                    out.parse(g, t)
                if c < 600: out.parse(g, lead + "a\n" + lead + "b", ind=c, align=False); out.parse(g, lead + "a\n" + lead + "b", ind=c - 1); out.parse(g, lead + "a\n" + lead + "b", ind=c + 1)
    for d in (16, 60, 260) if far else (16, 60, 130):
        t = "\n".join(" " * i + "a" for i in range(d))
        for end in ("", "\na", "\n" + " " * (d // 2) + "b\n" + " " * (d // 2) + "c", "\n" + " " * (d - 1) + "b")[:4 if d < 100 else 2]: out.parse(gs[0], t + end)
        t = "\n".join("\t" * i + "a" for i in range(d))
        out.parse(gs[0], t + "\n\tb", tab=rng.choice([1, 2, 4, 8, 200]))
    return out

def ends(rng, n, out=None):
    """Something behind what was read, after lengths that widths could cut down to others."""
    out = out or Cases()
    for _ in range(n):
        w = rng.choice(["a", "a", "é", "日"])
        m = len(w.encode())
        whole = rng.choice([256, 256, 257, 512, 4096, 32768, 65536, 65536, 65537, 131072])
        read = rng.choice([0, m, 2 * m, whole // 2, whole - m, whole - 2 * m, whole - 256, whole - 257, whole])
        read = max(0, read) // m
        over = max(0, whole + rng.choice([0, 0, 0, 0, -1, 1]) - read * m)
        if read * m > 5000: r = rng.choice([ua("b", "u", True), uaw("b", "w", True), seq(ua("b", "u"), opt(ws(True)))])
        else: r = rng.choice([ua("b", "u", True), rep(tag(w, "p"), True), sep(tag(w, "p"), opt(tag(",")), True, True), lines(uaw("b", "w"), True), seq(opt(node(1, "n")), ua("b", "u", True))])
        t = w * read + "b" * over
        for o in (0, 1): out.parse(grammar(tag(w, "x"), r), t, opt=o)
    return out

def grammar_texts(rng, sizes, out=None, how=("syntax",), boots=False):
    """Grammar texts with many strings, nodes, rules; long names and texts; deep nesting."""
    out = out or Cases()
    def put(t):
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t)})
        if boots: out.add(op="boot", chain=[O.SELF], same=True, t=cp(t), fast=rng.random() < .5)
    for k in sizes:
        put("\n".join("%d n%d = \"x%d\"" % (i, i, i) for i in range(k)) + "\n%d top = [n%d n%d n%d nope]" % (k, 0, k - 1, k // 2))
        put("\n".join("%d n%d = [n%d:\"p\" \"x\"]" % (i, i, (i + 1) % k) for i in range(min(k, 300))))
        put("\n".join("_s%d: \"v%d\"" % (i, i) for i in range(k)) + "\n1 a = [_s%d:_s%d .._s%d?:_s0]" % (k - 1, k // 2, min(k - 1, 255)))
        put("1 a = [" + " ".join("\"%d\":\"p%d\"" % (i, i) for i in range(k)) + "]")
        put("1 a = {" + " ".join("\"%s\":!\"p%d\"" % (chr(0x4e00 + i), i) for i in range(k)) + "}")
        put("1 a = \"" + "é" * k + "\":\"" + "日" * k + "\"\n2 " + "x" * k + " = a:\"" + "\\n" * k + "\"")
        put("1 a = \"b\" // " + "x" * k + "\n" * k + "2 b = a")
        d = min(k, 55)
        for a, b in (("[", "]"), ("{", "}"), (".r?(", ")"), (".l+(", ")"), ("?", ""), (".s?.(.w! ", ")"), ("!!", "")): put("1 a = " + a * d + "\"x\":\"y\"" + b * d)
        put("%d a = \"b\"\n%d c = [a \"x\"]" % (k, k * 1000))
    return out

def data(rng, sizes, out=None, json=True, cursor=True, search=True, convert=True):
    """Long and deep metadata for everything that reads metadata."""
    out = out or Cases()
    for k in sizes:
        flat = [dict(O.rand_item_value(rng, t), n=cp(rng.choice("ab") + str(i % 5))) for i, t in enumerate(rng.choices(["bool", "str", "f64"], k=k))]
        d = min(k, 600)
        s = lambda i: {"t": "start", "n": cp("n%d" % (i % 3)), "v": []}
        e = lambda i: {"t": "end", "n": cp("n%d" % (i % 3)), "v": []}
        deep = [s(i) for i in range(d)] + [e(i) for i in reversed(range(d))]
        wide = [x for i in range(k // 2) for x in (s(i), e(i))]
        both = [s(0)] + flat[:k // 2] + [s(1), e(1)] + flat[k // 2:] + [e(0)]
        for x in (flat, deep, wide, both, [s(0)] + deep + flat + [e(0)]):
            y = O.spread(rng, [dict(z) for z in x])
            names = [z["n"] for z in y]
            if json and (x is not deep or d <= 300) and len(x) < 900: out.add(op="json", data=[{"t": "f64", "n": z["n"], "v": [0, 0, 5], "d": O.double(5.0)} if z["t"] == "f64" else dict(z) for z in x])
            if cursor:
                out.add(op="cursor", data=y, script=[["start", names[0]], ["ignore", cp("")], ["ignore", cp("")], ["ignore", cp("")]])
                out.add(op="cursor", data=y, script=[["ignore", cp("")], [y[-1]["t"], names[-1]]])
                out.add(op="cursor", data=y, script=[[z["t"], z["n"]] for z in y[:12]])
            if search:
                for z in (y[-1], y[len(y) // 2]):
                    st = ["for_" + {"start": "node", "end": "end"}.get(z["t"], z["t"]), z["n"]] + ([z["v"]] if z["t"] in ("bool", "str", "f64") else [])
                    out.add(op="search", data=y, script=[st + ["in"], [{"start": "node"}.get(z["t"], z["t"]), z["n"]], st])
        if convert:
            rules = [seq(*[tag("x%d" % i, "p") for i in range(k // 4)]), rep(sel(*[node(0, None, "n%d" % (i % 3)) for i in range(k // 8)]))]
            it = O.meta_items(rng, rules, [cp("n0"), cp("n1")], [[0, 1, 0], [0, 2, 0]], {})
            out.add(op="convert", data=O.spread(rng, [dict(x) for x in it]))
            out.add(op="convert", data=O.spread(rng, [dict(x) for x in O.shaken(rng, it)]))
    return out

def reports(rng, sizes, out=None):
    """Errors on late lines and in long ones."""
    out = out or Cases()
    for k in sizes:
        for line in ("a", "", "é\t", "x" * 90):
            t = "\n".join([line] * k)
            for a in (len(t), max(0, len(t) - len(line) - 1), len(t) // 2, 9 * (len(line) + 1), 99 * (len(line) + 1)):
                a = min(a, len(t))
                O.report(out, t, rng.choice(["ExpectedTag", "ExpectedSomething"]), a, min(len(t), a + rng.choice([0, 0, 1, 5])), how=rng.choice(["write", "msg"]))
        t = "ab\té" * k
        for a in (len(t), len(t) // 2, 101): O.report(out, t, "ExpectedTag", min(a, len(t)), min(a, len(t)))
    return out

def tokens(rng, n, out=None, far=False):
    """Single tokens of lengths around which buffers could end, from odd places on."""
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([1023, 1024, 2048, 4095, 4096, 4097, 8192, 16384, 32768] + ([65535, 65536, 65537, 131072] if far or rng.random() < .3 else []))
        w = rng.choice(["a", "a", "é", "日", "\U0001f600", "aé"])
        lead = rng.choice(["", "", "x", "é", "日 "])
        m = max(1, (k + rng.choice([-1, 0, 0, 1]) - rng.choice([0, 0, len(lead.encode())])) // len(w.encode()))
        r, t = rng.choice([(ua("!", "u"), w * m), (uaw("!", "w"), w * m), (uaw("", "w", True), w * m), (text(rng.choice(["t", None])), "\"" + w * m + "\""), (text("t"), "\"" + w * (m - 3) + "\\n\\u0041\""),
                           (tag(w * m, "g"), w * m), (ws(False), rng.choice([" ", "\n", "\t", "\u3000", " \n"]) * m), (tag(w * m, "no", no=True), w * (m - 1)), (num("d"), "0" * m + "12"), (num("d", True), "1" + "_" * m + "5"), (no(ua("!")), "!"),
                           (no(tag(w * m)), w * (m - 1))])
        g = grammar(tag("x", "x"), seq(*([tag(lead)] if lead else []), r, ua("", "rest", True)))
        out.parse(g, lead + t + rng.choice(["", "", "!", "!a", " b"]), opt=rng.choice([0, 1]))
    return out

def sets(rng, n, out=None):
    """Sets of many characters, and texts that reach the ones at their ends."""
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000])
        first = rng.choice([48, 48, 97, 0x400, 0x4e00, 0x1f300])
        cs = [chr(c) for c in range(first, first + 4 * k) if not chr(c).isspace() and chr(c) not in "\"\\"]
        cs = rng.sample(cs, k + 5)
        cs, others = cs[:k], cs[k:] + ["+", "é"]
        others = [c for c in others if c not in cs]
        if rng.random() < .3: cs.insert(rng.randint(0, k), rng.choice(" \t\n\"\\"))
        if rng.random() < .2: cs = cs + cs[:rng.randint(1, 5)]
        r = rng.choice([ua, uaw])("".join(cs), "u", rng.random() < .5)
        g = grammar(tag("x", "x"), seq(r, ua("", "rest", True)))
        for c in [cs[-1], cs[0], rng.choice(cs), rng.choice(cs), rng.choice(others)]:
            out.parse(g, "".join(rng.choices(others, k=rng.choice([0, 1, 3]))) + c + "".join(rng.choices(others + cs, k=2)), opt=rng.choice([0, 1]))
    return out

def furthest(rng, n, out=None):
    """Many attempts that fail in different places."""
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([3, 7, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 40, 63, 64, 65, 128, 129, 255, 256, 257, 300])
        doc = "".join(rng.choice("abé") for _ in range(rng.choice([3, 6, 9])))
        def attempt(m):
            # Reads m characters, then wants something else.
            miss = rng.choice([tag("!"), num("n"), text("t"), ws(False), tag(doc[m:m + 1] or "z", no=True) if doc[m:m + 1] else tag("z")])
            return seq(*[tag(c, rng.choice([None, "p"])) for c in doc[:m]], miss)
        ms = [rng.choice([0, 0, 1, 1, min(2, len(doc) - 1)]) for _ in range(k)]
        for i in rng.choice([[k - 1], [k - 1], [0], [rng.randrange(k)], [rng.randrange(k), rng.randrange(k)], [k - 2], []]): ms[i] = rng.randint(1, len(doc) - 1)
        rs = [attempt(m) for m in ms]
        r = rng.choice([lambda: sel(*rs), lambda: sel(*rs), lambda: seq(*map(opt, rs)), lambda: seq(*[rep(x, True) for x in rs]), lambda: rep(sel(*(rs + [tag(doc[0], "p")])), True), lambda: sep(sel(*rs), tag(","), True, True), lambda: seq(*[sep(x, tag(","), True, False) for x in rs]), lambda: opt(sel(*rs))])()
        g = grammar(tag("x", "x"), r)
        for d in (doc, doc[:rng.randint(0, len(doc))]): out.parse(g, d, opt=rng.choice([0, 0, 1]))
    return out

def endless(rng, n, out=None):
    """Repetitions that go on for very long (and leave no metadata)."""
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([65535, 65536, 65537, 70000, 100001, 131073])
        r, t = rng.choice([(rep(tag("a")), "a"), (sep(tag("a"), tag(","), True, True), "a,"), (lines(tag("a")), "a\n"), (lines(tag("a"), True), "a\n"), (rep(opt(tag("a"))), "a")])
        out.parse(grammar(tag("x", "x"), seq(r, ua("", "rest", True)) if rng.random() < .3 else r), t * k, opt=rng.choice([0, 1]))
    return out

def far_data(rng, k, out=None, search=True):
    """What is searched for stands behind very many items."""
    out = out or Cases()
    x = {"t": rng.choice(["bool", "str", "f64"]), "n": cp("a")}
    if rng.random() < .5: head = [dict(O.rand_item_value(rng, x["t"]), n=cp("a"))] * k
    else: head = [y for i in range(k // 2) for y in ({"t": "start", "n": cp("a"), "v": []}, {"t": "end", "n": cp("a"), "v": []})]
    tail = [dict(O.rand_item_value(rng, t), n=cp(m)) for t, m in (("str", "s"), ("bool", "b"), ("f64", "f"))] + [{"t": "start", "n": cp("n"), "v": []}, {"t": "end", "n": cp("n"), "v": []}]
    data = [dict(y, o=i, e=i + 1) for i, y in enumerate(head + tail)]
    if not search: return out.add(op="cursor", data=data, script=[["start", cp("a")], ["ignore", cp("")], ["ignore", cp("")]]) and out
    for i in rng.sample(range(5), 2):
        z = tail[i]
        st = ["for_" + {"start": "node", "end": "end"}.get(z["t"], z["t"]), z["n"]] + ([z["v"]] if z["t"] in ("bool", "str", "f64") else [])
        nxt = tail[min(i + 1, 4)]
        out.add(op="search", data=data, script=[st + ["in"], [{"start": "node"}.get(nxt["t"], nxt["t"]), nxt["n"]]])
    return out

def many_lines(rng, n, out=None):
    """Reports about places on very late lines."""
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([4095, 4096, 10000, 65535, 65536, 70000])
        t = "\n" * k + rng.choice(["x", "ab c", ""]) + rng.choice(["", "\n", "\ny"])
        a = rng.choice([k, k, min(len(t), k + 1), k - 1])
        O.report(out, t, rng.choice(["ExpectedTag", "ExpectedSomething"]), a, a, how=rng.choice(["write", "msg"]))
    return out

"""Generators of grammar texts: what to expect is known from how they are made."""
from rules import *
from documents import Cases

NAMES = ["a", "b", "item", "é", "日本", "x1", "a_b", "list", "w", "t", "s", "r", "l", "$", "1a", "a-b", "a,b", "ab", "/", "'", "*", "#", "node", "a;"]
STRS = ["a", "b", "é", "日", "\"", "\\", "\n", "\t", "a b", "_x", "//", "/*", "[]{}", "\r\n", "\u0008\u000c", "\U0001f600", "{", "?", "\u00a0", "x" * 30, ".", "!"]

def quote(rng, s, allow=True):
    out = []
    for c in s:
        n = ord(c)
        short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: "\\\"", 92: "\\\\"}
        if n in (34, 92): out.append(short[n])
        elif n in short and rng.random() < .8: out.append(short[n])
        elif c == "/" and rng.random() < .3: out.append("\\/")
        elif n < 0xd800 and rng.random() < .1: out.append("\\u%04x" % n if rng.random() < .5 else "\\u%04X" % n)
        else: out.append(c)
    return "\"" + "".join(out) + "\""

class Printer:
    def __init__(self, rng, strings, plain=False):
        self.rng, self.strings, self.plain = rng, strings, plain
    def w(self, required):
        if self.plain: return " " if required else ""
        x = self.rng.random()
        if not required and x < .5: return ""
        return self.rng.choice([" ", " ", " ", "  ", "\n", "\t", " \n ", "\r\n", "\n\n", "\x0b", "\x0c"])
    def set(self, cps_):
        """A text, given as such or by the name of a string that holds it."""
        s = "".join(map(chr, cps_))
        names = [n for n, v in self.strings.items() if v == s]
        if names and self.rng.random() < .6: return "_" + self.rng.choice(names)
        return quote(self.rng, s)
    def opt(self, o): return "?" if o else "!"
    def prop(self, p): return ":" + self.set(p[0]) if p else ""
    def rule(self, r):
        k = r["k"]
        if k == "ws": return ".w" + self.opt(r["opt"])
        if k == "tag":
            return ("!" if r["not"] else "") + self.set(r["text"]) + \
                (":" + ("!" if r["inv"] else "") + self.set(r["prop"][0]) if r["prop"] else "")
        if k == "ua": return "..." + self.set(r["any"]) + self.opt(r["opt"]) + self.prop(r["prop"])
        if k == "uaw": return ".." + self.set(r["any"]) + self.opt(r["opt"]) + self.prop(r["prop"])
        if k == "text": return ".t" + self.opt(r["empty"]) + self.prop(r["prop"])
        if k == "num": return ".$" + ("_" if r["us"] else "") + self.prop(r["prop"])
        if k == "node": return "".join(map(chr, r["name"])) + self.prop(r["prop"])
        if k in ("seq", "sel"):
            a, b = ("[", "]") if k == "seq" else ("{", "}")
            return a + self.w(False) + "".join(self.rule(x) + self.w(i < len(r["args"]) - 1) for i, x in enumerate(r["args"])) + b
        if k == "sep":
            return ".s" + self.opt(r["opt"]) + ("." if r["trail"] else "") + "(" + self.w(False) + self.rule(r["by"]) \
                + self.w(True) + self.rule(r["rule"]) + self.w(False) + ")"
        if k == "rep": return ".r" + self.opt(r["opt"]) + "(" + self.rule(r["rule"]) + ")"
        if k == "lines": return ".l" + ("+" if r["indent"] else "") + "(" + self.w(False) + self.rule(r["rule"]) + self.w(False) + ")"
        if k == "opt": return "?" + self.rule(r["rule"])
        if k == "not": return "!" + self.rule(r["rule"])
    def comment(self):
        rng = self.rng
        if rng.random() < .5:
            return "//" + rng.choice(["", " text", "é /* ", " \"x", "// 1 a = \"b\"", " 日本"])
        def multi(d):
            s = "/*"
            for _ in range(rng.randint(0, 3)):
                s += rng.choice([" a ", "*", "/", "é", "\n", "**", "//", " 1 a = b\n", "\"", "", "* /"]) if d == 0 or rng.random() < .7 else multi(d - 1)
                if s.endswith("*"): s += " "
                if s.endswith("/"): s += " "
            return s + "*/"
        return multi(2)
    def gap(self):
        """Between two lines of a grammar: blank lines and comments."""
        if self.plain: return "\n"
        s = self.rng.choice(["\n", "\n", "\n", " \n", "\r\n", "\n\n", "\t\n"])
        while self.rng.random() < .2:
            s += self.rng.choice(["", " ", "\t"]) + self.comment() + "\n"
        return s + self.rng.choice(["", "", "", " ", "\t", "\n "])

def written_rule(rng, depth, names, strs):
    """Only what can be written: no empty tokens, no choice of nothing."""
    text_ = lambda empty=False: rng.choice(strs + ([""] if empty else []))
    p = lambda: rng.choice([None, None] + strs)
    b = lambda: rng.random() < .5
    x = rng.random()
    sub = lambda: written_rule(rng, depth - 1, names, strs)
    if depth <= 0 or x < .2:
        y = rng.random()
        if y < .35:
            q = p()
            return tag(text_(), q, no=rng.random() < .3, inv=q is not None and b())
        if y < .45: return ws(b())
        if y < .55: return ua(text_(True), p(), b())
        if y < .65: return uaw(text_(True), p(), b())
        if y < .75: return text(p(), b())
        if y < .85: return num(p(), b())
        return node(0, p(), rng.choice(names))
    if x < .38: return seq(*[sub() for _ in range(rng.randint(1, 4))])
    if x < .56: return sel(*[sub() for _ in range(rng.randint(1, 4))])
    if x < .68: return sep(sub(), sub(), b(), b())
    if x < .76: return rep(sub(), b())
    if x < .82: return lines(sub(), b())
    if x < .90: return opt(sub())
    while True:
        r = sub()
        if r["k"] == "tag" and not r["not"]: continue   # that would be a negated token
        return no(r)

def numbered(rules, numbers):
    out = []
    for n, r in zip(numbers, rules):
        r = copy(r)
        cnt = [1000 * n]
        def go(x):
            for c in ([x["by"], x["rule"]] if x["k"] == "sep" else children(x)): go(c)
            cnt[0] += 1
            x["id"] = cnt[0]
        go(r)
        out.append(r)
    return out

def resolved(rules, names):
    for r in rules:
        for x in walk(r):
            if x["k"] == "node":
                n = "".join(map(chr, x["name"]))
                x["idx"] = names.index(n) + 1 if n in names else 0
    return rules

def rand_written(rng, depth=3, nodes=4, plain=False, defined=False):
    """A grammar text and what it has to come to."""
    strs = rng.sample(STRS, rng.randint(2, 6))
    k = rng.randint(0, 3)
    pool = rng.choice(ALIKE) if rng.random() < .3 else ["s", "t", "é", "x1", "_", "opt", "q", "1"]
    k = min(k, len(pool))
    strings = dict(zip(rng.sample(pool, k), [rng.choice(strs) for _ in range(k)]))
    pr = Printer(rng, strings, plain)
    n = rng.randint(1, nodes)
    names = [rng.choice(NAMES) for _ in range(n)]
    pool = names if defined else names + [rng.choice(NAMES)]
    rules = [written_rule(rng, depth, pool, strs) for _ in range(n)]
    numbers = [rng.choice([i, 10 * i, rng.randint(0, 999), rng.choice([1234, 100000, 0])]) for i in range(n)]
    def shown(i):
        return rng.choice([str(i), str(i), "0" + str(i), str(i) + ".0", "%d.75" % i, "%de0" % i]) if not plain else str(i)
    out = "" if plain else rng.choice(["", "", "\n", " ", "\n\n  "])
    if not plain and rng.random() < .15: out += pr.comment() + "\n"
    for name, v in strings.items():
        out += "_%s:%s%s" % (name, pr.w(False), quote(rng, v)) + pr.gap()
    for i, (m, name, r) in enumerate(zip(numbers, names, rules)):
        out += shown(m) + pr.w(True) + name + pr.w(True) + "=" + pr.w(False) + pr.rule(r)
        if i < n - 1: out += pr.gap()
    if not plain:
        out += rng.choice(["", "\n", "\n\n", " ", "\n// end"])
    return out, {"rules": resolved(numbered(rules, numbers), names), "names": [cp(x) for x in names]}

def references(rng, n, out=None):
    """Names used for several nodes, unknown names, references linked before."""
    out = out or Cases()
    for _ in range(n):
        names = [rng.choice(["a", "b", "ab", "A", "a_", "é", "e\u0301", ""]) for _ in range(rng.randint(0, 5))]
        g = grammar(*[rand_rule(rng, 3, 3) for _ in names])
        for r in g["rules"]:
            for x in walk(r):
                if x["k"] == "node": x["name"], x["idx"] = cp(rng.choice(names + ["zz", "B"])), rng.choice([0, 0, 0, rng.randint(1, 6)])
        out.add(op="refs", grammar=dict(g, names=[cp(x) for x in names]))
    return out

def near_miss(rng, t):
    """Something a little off."""
    k = rng.random()
    i = rng.randint(0, len(t))
    if k < .35: return t[:i] + t[i + 1:]
    if k < .6: return t[:i] + rng.choice("[]{}()?!.:\"_= \n1ab+,/*$\\") + t[i:]
    if k < .7: return t[:i]
    if k < .8: return t + rng.choice(["x", "\n1", "]", "\n_a: \"b\"", " 2 b = \"c\"", "\n!", "\u00e9", "\n2 b = _nope", "\n2 b = \"x\":_nope", " // x", "/**/"])
    if k < .9 and t:
        i = min(i, len(t) - 1)
        if rng.random() < .6:
            marks = [j for j, c in enumerate(t) if c in SYMBOLS]
            if marks: i = rng.choice(marks)
        return t[:i] + rng.choice(SYMBOLS) + t[i + 1:]
    j = rng.randint(i, min(len(t), i + 6))
    return t[:i] + t[j:]

SYMBOLS = "?!.:_=*+$@#&|~^%-<>;',/\\\"()[]{}" + " \n01aws"

MARKED = [".w?", ".w!", ".t?", ".t!", ".t?:\"p\"", ".$", ".$_", ".$_:\"p\"", "..\"b\"?", "...\"b\"!", "...\"b\"?:\"p\"", ".r?(a)", ".r!(a)", ".l(a)", ".l+(a)", ".s?(a a)", ".s!.(a a)",
          "?a", "!a", "!\"b\"", "\"b\":\"p\"", "!\"b\":!\"p\"", "a:\"p\"", "[a a]", "{a a}", "[a ?\"b\" a]", "_s", "_s:_s", "a:_s", ".._s?", "[_s a]"]

def marks(rng, n, out=None, how=("syntax", "builtin"), flags=True):
    """Every mark in every form exchanged for another, left out, or with one put before."""
    out = out or Cases()
    every, flag = [], []
    for f in MARKED:
        for i in range(len(f) + 1):
            every += [f[:i] + c + f[i:] for c in SYMBOLS]
            if i < len(f): every += [f[:i] + c + f[i + 1:] for c in SYMBOLS] + [f[:i] + f[i + 1:]]
            if i < len(f) and (f[i] in "?!+_:" or i == 1 and f[0] == "."): flag += [f[:i] + c + f[i + 1:] for c in SYMBOLS]
    every, flag = sorted(set(every)), sorted(set(flag)) if flags else []
    if n < len(every): every = rng.sample(every, n)
    for f in every + flag:
        t = "_s:\"x\"\n1 a = %s\n2 b = \"y\"" % f if rng.random() < .7 or "_s" in f else "1 a = %s" % f
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t)})
    return out

DEFINED = ["1 a = \"x\"", "_s: \"x\"\n1 a = _s", "1 a = b\n2 b = \"c\"", "1 ab = a\n2 a = \"c\"", "// c\n1 a = \"x\"", "/* c */\n1 a = \"x\"", "1.5 a = .$", "_s: \"x\"\n_t: \"y\"\n1 a = [_s _t]", "1 a = \"x\"\n// c\n2 b = a"]

def edits(rng, n, out=None, how=("syntax", "builtin")):
    """Single characters of whole texts left out, put in or exchanged."""
    out = out or Cases()
    every = []
    for f in DEFINED:
        for i in range(len(f) + 1):
            every += [f[:i] + c + f[i:] for c in SYMBOLS]
            if i < len(f): every += [f[:i] + c + f[i + 1:] for c in SYMBOLS] + [f[:i] + f[i + 1:]]
    every = sorted(set(every))
    for t in rng.sample(every, min(n, len(every))):
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t)})
    return out

ALIKE = [["s", "s_", "S", "ss", "s1", "_s", "_"], ["opt", "opt?"[:3] + "_", "Opt", "op", "opts"], ["é", "e", "e\u0301", "É"], ["1", "01", "1_", "11"], ["ab", "a", "abc", "aB", "ba", "ab_", "ab__"]]

def renamed(rng, t):
    """A name that is used, or given, exchanged for one like it."""
    import re
    names = list(re.finditer(r"(?<![\w\"])_[\w]+", t))
    if not names: return near_miss(rng, t)
    m = rng.choice(names)
    n = m.group()[1:]
    like = [x for xs in ALIKE if n in xs for x in xs if x != n] + [n + "_", n[:-1], n.swapcase(), n + n[-1], "_" + n]
    return t[:m.start()] + "_" + rng.choice(like) + t[m.end():]

def written(rng, n, out=None, misses=2, how=("syntax", "builtin"), depth=3):
    out = out or Cases()
    for _ in range(n):
        t, want = rand_written(rng, rng.randint(1, depth), plain=rng.random() < .2)
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t), "want": want})
        for i in range(misses):
            m = near_miss(rng, t) if i or rng.random() < .8 else renamed(rng, t)
            for w in how: out.add(op="meta", **{"with": w, "t": cp(m)})
    return out

def every_form(out=None, how=("syntax", "builtin")):
    """Each form on its own with each flag, name and reference; and in twos."""
    import random
    rng = random.Random(0)
    out = out or Cases()
    strings = {"s": "a", "q": "é\"", "e": ""}
    pr = Printer(rng, strings, True)
    forms = []
    for p in (None, "p", "é\"", "a"):
        for o in (False, True):
            forms += [ws(o), ua("a", p, o), uaw("a", p, o), ua("", p, o), uaw("é\"", p, o), text(p, o), num(p, o), node(0, p, "a"), node(0, p, "zz")]
            for nt in (False, True):
                if not (o and p is None): forms.append(tag("a", p, no=nt, inv=o))
    one = lambda r: numbered([r], [7])
    def put(rules, strs=("s", "q", "e")):
        t = "".join("_%s: %s\n" % (k, quote(rng, strings[k])) for k in strs)
        names = ["a", "b", "a"][:len(rules)] if len(rules) < 3 else ["a", "b", "a"]
        t += "\n".join("%d %s = %s" % (i, nm, pr.rule(r)) for i, (nm, r) in enumerate(zip(names, rules)))
        want = {"rules": resolved(numbered(rules, range(len(rules))), names), "names": [cp(x) for x in names]}
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t), "want": want})
    for r in forms:
        put([r]); put([r, r])
        plain_tag = r["k"] == "tag" and not r["not"]
        for x in [seq(r), sel(r), opt(r), rep(r, True), rep(r, False), lines(r, True), lines(r, False)] + ([] if plain_tag else [no(r)]):
            put([x])
        for o in (False, True):
            for tr in (False, True):
                put([sep(r, ws(True), o, tr)]); put([sep(tag("b", "y"), r, o, tr)])
        put([seq(r, r, r)]); put([sel(r, ws(True), r)]); put([r, opt(r), seq(node(0, None, "a"), node(0, "n", "b"))])
    return out

WRONG = ["", " ", "\n", "1", "1 a", "1 a =", "1 a = ", "a = \"b\"", "1 a = []", "1 a = {}", "1 a = \"\"", "1 a = .w", "1 a = .x",
         "1 a = .r(\"b\")", "1 a = .r?\"b\"", "1 a = .r?( \"b\")", "1 a = .s?(\"b\")", "1 a = .s(\"b\" \"c\")", "1 a = .s?(\"b\"\"c\")",
         "1 a = \"b", "1 a = b\"", "1 a = .t", "1 a = .t?:", "1 a = .t?:b", "1 a = .$:", "1 a = ..?", "1 a = ..\"b\"", "1 a = ...\"b\"",
         "1 a = \"b\":!", "1 a = \"b\":", "1 a = \"b\":\"\"", "1 a = !", "1 a = ?", "1 a = _b", "1 a = _b:\"c\"", "1 a = \"b\":_c", "1 a = .t?:_c",
         "1 a = .._c?", "1 a = ..._c!", "1 a = [b", "1 a = b]", "1 a = [b}", "1 a = .l(\"b\"", "1 a = .l++(b)", "1 a = .l!(b)", "1 a=\"b\"", "1a = \"b\"",
         "1 _a = \"b\"", "1 .a = \"b\"", "1 a = \"b\" 2 c = \"d\"", "1 a = \"b\"\n\n2 c", "_a: \"b\"", "_a \"b\"\n1 a = _a", "_a: \"b\" 1 a = _a",
         "_a:\n\"b\"\n1 c = _a", "1 a = _a\n_a: \"b\"", "_a: \"b\"\n_a: \"c\"\n1 d = _a", "// only", "/* only */", "/* open\n1 a = \"b\"", "1 a = \"b\" // c",
         "1 a = \"b\"\n// c", "1 a = \"b\"\n/* c */", "/*/ */ */\n1 a = \"b\"", "/* /* */ */\n1 a = \"b\"", "/***/\n1 a = \"b\"", "/**/1 a = \"b\"", "/* */ _a: \"x\"\n1 a = _a",
         "1 a = \"\\q\"", "1 a = \"\\u00g0\"", "1 a = \"\\ud800\"", "1 a = \"\\u12", "1 a = \"b\\", "1.2.3 a = \"b\"", "1e a = \"b\"", "-1 a = \"b\"", "-0.5 a = \"b\"", "+1 a = \"b\"",
         "1e3 a = \"b\"", "1e6 a = \"b\"", ".5 a = \"b\"", "5. a = \"b\"", "1_0 a = \"b\"", "1 a = \"b\"\n1 a = \"c\"", "1 a = a", "1 a = b\n2 b = a", "1 a = [\"x\" a]", "1 a = nope",
         "1 a = !!\"b\"", "1 a = !_a", "_a: \"x\"\n1 a = !_a", "_a: \"x\"\n1 a = !!_a", "_a: \"\"\n1 a = _a", "_a: \"x\"\n1 a = _a:!_a", "_: \"x\"\n1 a = _", "_ a: \"x\"\n1 a = _",
         "1 a = .$_", "1 a = .$__", "1 a = .$_:\"b\"", "1 a = .$ _", "1 a = .w?.w!", "1 a = [.w? .w!]", "1 a = .s?.(\"b\" \"c\")", "1 a = .s!.(\"b\" \"c\")", "1 a = .s.?(\"b\" \"c\")",
         "1 é = \"b\"", "1 a = é\n2 é = \"c\"", "1 a = b:\"c\"\n2 b = \"d\"", "1 a = b:!\"c\"", "1 a = (b)", "1 a = ..\"b\"?:\"c\"\n", "1 a = .l+(.l(\"b\"))", "1 a = ??b", "1 a = ?!b", "1 a = !?b",
         "1 a = [\n\"b\"\n]", "1 a =\n\"b\"", "1\na = \"b\"", "1 a\n= \"b\"", "  1 a = \"b\"", "\t1 a = \"b\"\n\t2 c = a", "1 a = \"b\"\r\n2 c = a\r\n"]

def wrong(out=None, how=("syntax", "builtin")):
    out = out or Cases()
    for t in WRONG:
        for w in how: out.add(op="meta", **{"with": w, "t": cp(t)})
    return out

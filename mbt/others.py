"""Generators for blocks and lines, literals, endings, metadata, reports, histories."""
import itertools, json, random, struct
from rules import *
from documents import Cases, texts, random_items, rand_item
import documents as D, grammars as G, rules as R

# --------------------------------------------------------- blocks and lines
def block_grammars():
    word = uaw("", "name")
    deep = grammar(seq(word, opt(lines(node(1, "child"), True))), lines(node(1, "item"), True))
    yield deep
    # the nested list behind white space, as it has to be when it is not optional
    yield grammar(seq(uaw(":", "name"), opt(seq(tag(":", "owner"), lines(node(1, "child"), True)))), lines(node(1, "item"), True))
    yield grammar(sel(seq(tag("a", "A"), lines(tag("b", "B"), True), tag("c", "C")), seq(tag("a", "a2"), opt(lines(node(1), True))), tag("b", "b2"), tag("c", "c2")),
                  lines(node(1, "n"), True))
    yield grammar(seq(lines(seq(tag("a", "A"), opt(lines(tag("b", "B"), True))), True), ws(True), opt(lines(tag("b", "C"), True)), ua("", "rest", True)))
    yield grammar(seq(uaw("", "w"), lines(tag("a", "A"), False)), lines(seq(uaw("", "name"), opt(lines(seq(tag("b", "B"), opt(lines(tag("c", "C"), True))), True))), True))
    yield grammar(lines(seq(tag("a", "A"), rep(seq(lines(tag("b", "B"), True)), True)), True))
    yield grammar(seq(opt(seq(lines(tag("a", "A"), True), tag("!"))), lines(sel(tag("a", "a"), tag("b", "b")), True)))

def rand_blocks(rng):
    """Random lists of lines in lists of lines, some of which are given up."""
    names = ["name", "k", None, "p"]
    def w():
        return rng.choice([uaw("", rng.choice(names)), uaw(";:!", rng.choice(names)), uaw(";:!", rng.choice(names)), ua(";:!\n", rng.choice(names)), tag("a", "A"), sel(tag("a", "A"), tag("b", "B"), uaw(";:!", "c")),
                           rep(sel(tag("a", "A"), tag("b", "B")))])
    def item(d):
        parts = [w()]
        if rng.random() < .3: parts.append(opt(tag(":", "colon")) if rng.random() < .6 else tag(":"))
        if d and rng.random() < .75:
            l = lines(item(d - 1) if rng.random() < .7 else node(1, "child"), rng.random() < .9)
            parts.append(opt(l) if rng.random() < .75 else l)
        if rng.random() < .3: parts.append(rng.choice([tag(";", "semi"), tag("!"), seq(ws(True), tag("!"))]))
        return seq(*parts) if len(parts) > 1 else parts[0]
    l = lambda: lines(item(rng.randint(0, 2)), rng.random() < .9)
    again = lambda: rng.choice([lines(node(1, "item"), True), lines(seq(uaw("", "name"), opt(lines(node(1, "child"), True))), True), l()])
    top = rng.choice([lambda: l(), lambda: again(), lambda: sel(seq(l(), ws(True), tag("!")), again()), lambda: seq(opt(seq(l(), tag("!"))), again()), lambda: sel(l(), again()), lambda: seq(no(seq(l(), tag("!"))), again()),
                      lambda: seq(l(), ws(True), again()), lambda: seq(rep(seq(l(), tag("!")), True), again()), lambda: seq(uaw("", "title"), again(), ws(True), opt(again())), lambda: sep(l(), tag("!"), True, True)])()
    g = [seq(uaw(";:!", "name"), opt(lines(node(1, "child"), True))), top]
    return rand_blocks(rng) if left_recursive(g) or sum(size(r) for r in g) > 40 else grammar(*g)

def blocks_small(n_lines, cols, out=None, ctxs=((4, True, 0),)):
    """All documents of few lines, each at one of a few columns."""
    out = out or Cases()
    words = "abc"
    for g in block_grammars():
        for n in range(1, n_lines + 1):
            for shape in itertools.product(cols, repeat=n):
                for k, (tab, align, ind) in enumerate(ctxs):
                    w = [words[(i * 2 + sum(shape[:i]) + k) % 3] if (i + n) % 2 else words[i % 2] for i in range(n)]
                    t = "\n".join(" " * c + x for c, x in zip(shape, w))
                    out.parse(g, t, tab=tab, align=align, ind=ind)
    return out

def block_text(rng, tab):
    """Lines of a tree, mostly well laid out."""
    out = []
    long = rng.random() < .25   # mostly long words
    def indent(col):
        s = ""
        c = 0
        while c < col:
            if col - c >= tab and rng.random() < .5: s += "\t"; c += tab
            else: s += " "; c += 1
        return s
    def go(col, d):
        for _ in range(rng.randint(1, 3)):
            c = col if rng.random() < .9 else max(0, col + rng.randint(-2, 2))
            w = "".join(rng.choice("abcé") for _ in range(rng.choice([1, 1, 2])))
            if rng.random() < (.6 if long else .05): w = R.word(rng)
            if rng.random() < .35: w += rng.choice("::;!")
            out.append(indent(c) + w + rng.choice(["", "", "", " ", "\t", "  \t"]))
            while rng.random() < .2: out.append(rng.choice(["", " ", "\t", "   ", "\x0b"]))
            if d and rng.random() < .6: go(col + rng.choice([1, 2, 2, 3, 4, 8, tab]), d - 1)
    go(rng.choice([0, 0, 1, 2, 4]), rng.randint(0, 3))
    nl = rng.choice(["\n", "\n", "\r\n"])
    t = rng.choice(["", "", "\n", " \n", "\t\n\n"]) + nl.join(out) + rng.choice(["", nl, nl + nl, " ", nl + "x", nl + "  x"])
    return t

def blocks(rng, n, out=None):
    out = out or Cases()
    gs = list(block_grammars())
    for _ in range(n):
        tab = rng.choice([4, 4, 4, 1, 2, 3, 8, 0])
        g = rng.choice(gs) if rng.random() < .5 else rand_blocks(rng)
        t = block_text(rng, tab)
        if rng.random() < .2:
            i = rng.randint(0, len(t)); t = t[:i] + rng.choice(["\t", " ", "\n", "a", "b", "\r"]) + t[i:]
        out.parse(g, t, tab=tab, align=rng.random() < .6, ind=rng.choice([0, 0, 0, 1, 2, 4]), opt=rng.choice([0, 0, 0, 1]))
    return out

def tabs(out=None):
    """Tabs and spaces in front of lines, for each width of a tab."""
    out = out or Cases()
    gs = list(block_grammars())[:1]
    lead = ["", " ", "  ", "\t", " \t", "\t ", "   ", "    ", "  \t", "\t\t", "        ", "   \t "]
    for g in gs:
        for tab in (1, 2, 3, 4, 8, 255):
            for a, b in itertools.product(lead, repeat=2):
                for align in (True, False):
                    out.parse(g, a + "a\n" + b + "b\n" + a + "c", tab=tab, align=align, ind=len(a) % 3)
            for a, b, c in itertools.product(lead[:7], repeat=3):
                out.parse(g, "a\n" + a + "b\n" + b + "c\n" + c + "d", tab=tab)
    return out

def line_lists(n, out=None):
    """Lists of items, one a line, some of which span lines."""
    out = out or Cases()
    items = [tag("a", "p"), tag("a\nb", "p"), seq(tag("a", "p"), opt(tag("b", "q"))), sel(tag("a\n", "nl"), tag("a", "p")),
             seq(tag("a", "p"), ws(True)), seq(tag("a", "p"), opt(tag("\n", "q")), opt(tag("b", "q"))), rep(tag("a", "p"), False),
             seq(opt(tag("a", "p")), opt(tag("b", "q"))), uaw("b", "w"), ua("b", "u"), lines(tag("a", "p")), tag(" a", "sp"),
             sep(tag("a", "p"), tag("\n", "c"), False, True)]
    for it in items:
        for g in (grammar(lines(it)), grammar(seq(lines(it), ua("", "rest", True))), grammar(seq(lines(it), ws(True), opt(tag("b", "z")))),
                  grammar(seq(tag("a", "first"), lines(it), ws(True)))):
            for t in texts("ab\n ", n): out.parse(g, t)
        for t in texts("a\r\n\t", n - 1): out.parse(grammar(lines(it)), t)
        for t in texts("a\u3000\n", n): out.parse(grammar(seq(lines(it), ua("", "rest", True))), t)
        for t in texts("a\u0085\n ", n - 1): out.parse(grammar(seq(lines(it), ws(True))), t)
    return out

def item_rules():
    return [tag("item", "p"), uaw(",", "w"), text("t", True), num("n", True), seq(text("k"), ws(False), num("v")),
            seq(tag("{"), ws(True), lines(uaw("}", "in")), tag("}")), ua("\n", "line"), node(1, "n"),
            sel(seq(tag("if", "if"), ws(False), uaw("", "c")), uaw("", "w"))]

def line_random(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        it = rng.choice(item_rules())
        r = lines(it)
        g = grammar(seq(tag("x", "x"), opt(tag("y", "y"))), rng.choice([r, r, seq(r, ua("", "rest", True)), seq(r, uaw("", "w"), r), rep(seq(r, tag(";")), True)]))
        for _ in range(4):
            out.parse(g, rand_text(rng, g["rules"], 30))
    return out

# ------------------------------------------------------------------ literals
def quoted_small(n, out=None):
    out = out or Cases()
    for e in (True, False):
        for t in texts("\"\\nuaé1", n):
            if t[:1] == "\"": out.parse(grammar(seq(text("p", e), ua("", "r", True))), t)
        for t in texts("\"\\u0é", 3):
            out.parse(grammar(text("p", e)), t)
            out.parse(grammar(seq(tag("é"), text("p", e), text(None, e))), "é\"" + t + "\"")
    for c in [chr(x) for x in range(0, 128)] + ["é", "日", "\U0001f600", "\u2028"]:
        for e in (True, False):
            out.parse(grammar(text("p", e)), "\"\\" + c + "\"")
            out.parse(grammar(text("p", e)), "\"x" + c + "\"")
    return out

def quoted_random(rng, n, out=None):
    out = out or Cases()
    hexs = "0123456789abcdefABCDEF"
    for _ in range(n):
        parts = []
        for _ in range(rng.randint(0, 6)):
            x = rng.random()
            if x < .35:
                h = "".join(rng.choice(hexs) for _ in range(rng.choice([4, 4, 4, 4, 4, 3, 2, 1, 0, 5])))
                if rng.random() < .1 and h: h = h[:-1] + rng.choice("gG\"\\é ")
                parts.append("\\u" + h)
            elif x < .6: parts.append("\\" + rng.choice("\"\\/bfnrtbfnrt\"" + ("qé0N" if rng.random() < .15 else "n")))
            else: parts.append(rng.choice(["a", "é", "日本", "\U0001f600", " ", "\n", "\t", "/", "'", "\x7f", "\x01", "\u0300"]))
        t = "".join(parts)
        e = rng.random() < .5
        pre = rng.choice(["", "", "é", "日 "])
        g = grammar(seq(tag(pre) if pre else opt(tag("zz")), text(rng.choice(["p", None]), e), rng.choice([ua("", "r", True), opt(tag("!"))])))
        out.parse(g, pre + "\"" + t + rng.choice(["\"", "\"", "\"", "\"", "", "\\\"", "\\\\\"", "\"\"", "\"x"]))
    return out

def number_small(n, out=None, alpha="1-+.eE_0"):
    out = out or Cases()
    for us in (True, False):
        g = grammar(seq(num("p", us), ua("", "r", True)))
        for t in texts(alpha, n): out.parse(g, t)
    return out

def number_random(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        k = rng.choice([1, 2, 4, 8])
        d = lambda m: "".join(rng.choice("0123456789") for _ in range(rng.randint(0, m)))
        s = rng.choice(["", "", "-", "+"]) + d(min(k, 5)) + (rng.choice([".", ""]) + d(3) if rng.random() < .7 else "") + \
            (rng.choice("eE") + rng.choice(["", "-", "+"]) + d(2) if rng.random() < .4 else "")
        if rng.random() < .3:
            i = rng.randint(0, len(s)); s = s[:i] + rng.choice("_.e-+é") + s[i:]
        if rng.random() < .05: s += "e" + rng.choice(["", "-", "+", "0"]) + "".join(rng.choice("0129_.") if rng.random() < .1 else "8" for _ in range(rng.randint(8, 25)))
        us = rng.random() < .5
        if rng.random() < .2:
            # Many digits, and exponents that are out of reach.
            ds = "".join(rng.choice("0123456789") for _ in range(rng.choice([9, 10, 10, 11, 12, 14, 15])))
            if rng.random() < .3: ds = rng.choice(["2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "8589934592", "1099511627776", "65536", "16777217", "999999999", "9999999999", "1000000000000"])
            s = rng.choice(["", "", "-"]) + rng.choice(["", "", "", "0", "000"]) + ds
            if rng.random() < .3: s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 3, 9, 10, 20, 40])))
            if rng.random() < .3: s += rng.choice("eE") + rng.choice(["", "", "-", "+"]) + rng.choice(["0", "5", "12", "30", "100", "150", "0000000000012", "1001", "4294967297", "4294967296", "2147483648", "18446744073709551616", "18446744073709551617", "9" * 30])
            elif rng.random() < .1: s = rng.choice(["0.", "-0.", "."]) + "0" * rng.choice([1, 5, 12, 30]) + ds
            if us and rng.random() < .3:
                for _ in range(rng.randint(1, 3)): i = rng.randint(1, len(s)); s = s[:i] + "_" + s[i:]
        pre = rng.choice(["", "", "é", "x日"])
        g = grammar(seq(tag(pre) if pre else opt(tag("zz")), num(rng.choice(["p", "p", None]), us), rng.choice([ua("", "r", True), opt(tag("!"))])))
        out.parse(g, pre + s + rng.choice(["", "", " ", "x", "é", "!", ",1", "e", "."]))
    return out

def values(rng, n, out=None):
    """Lists of values that are nearly the same as those before them."""
    out = out or Cases()
    for _ in range(n):
        fam = rng.choice(R.FAMILIES[:5]) if rng.random() < .8 else rng.choice(R.FAMILIES)
        fam = rng.sample(fam, min(len(fam), rng.choice([2, 3, 5])))
        base = rng.choice(["12345678", "1234567.5", "1e5", "-123456", "100000"])
        nums = [base, base[:-1] + rng.choice("123456789"), base[:2] + rng.choice("123456789") + base[3:], base + "1", base[:-1], "-" + base.lstrip("-"), base + ".5" if "." not in base and "e" not in base else base]
        same = rng.choice(["w", "p", None])
        kinds = {"w": (lambda: uaw(",;()", same or "w"), lambda: rng.choice(fam)), "u": (lambda: ua(",;()\n", same or "u"), lambda: rng.choice(fam) + rng.choice(["", " "])), "t": (lambda: text(same or "t"), lambda: "\"%s\"" % rng.choice(fam + ["a\\n" + fam[0]])),
                 "n": (lambda: num(same or "n", True), lambda: rng.choice(nums)), "g": (lambda: sel(*[tag(w, w[:9]) for w in sorted(fam, reverse=True)]), lambda: rng.choice(fam))}
        ks = rng.choice([["w"], ["w"], ["u"], ["t"], ["n"], ["g"], ["w", "t"], ["w", "n"], ["t", "t"], ["w", "g"], ["n", "w"]])
        one = [kinds[k][0]() for k in ks]
        item = one[0] if len(one) == 1 else seq(*[x for y in one for x in (y, tag(","))][:-1])
        line = lambda: ",".join(kinds[k][1]() for k in ks)
        by, gap = rng.choice([(tag(";"), ";"), (tag(";", "by"), ";"), (ws(False), " "), (tag(",") if len(ks) == 1 else tag(";"), "," if len(ks) == 1 else ";")])
        if ks[-1] in ("w", "u") and gap == " " and ks[-1] == "u": by, gap = tag(";"), ";"
        m = rng.choice([2, 3, 4, 8, 20])
        vs = []
        for _ in range(m): vs.append(vs[-1] if vs and rng.random() < .2 else line())
        r, t = rng.choice([(sep(item, by, rng.random() < .5, rng.random() < .5), gap.join(vs)), (rep(seq(item, by)), gap.join(vs) + gap), (lines(item, rng.random() < .3), "\n".join(vs)), (sep(node(1, "n"), by, True, True), gap.join(vs)),
                           (seq(*[x for _ in range(m) for x in (item, by)]), gap.join(vs) + gap), (sep(seq(tag("("), node(1, "n"), tag(")")), by), gap.join("(%s)" % v for v in vs)), (seq(opt(seq(sep(item, by), tag("!"))), sep(item, by)), gap.join(vs)),
                           (sel(seq(item, by, item, tag("!")), sep(item, by, False, True)), gap.join(vs))])
        g = grammar(item, r)
        for x in (t, R.mutate(rng, t)): out.parse(g, x, opt=rng.choice([0, 0, 1]))
    return out

# --------------------------------------------------------------- endings
def nullable(rng, n, out=None):
    """Loops over parts that may match nothing."""
    out = out or Cases()
    nul = [opt(tag("a", "p")), tag("", "e"), tag("x", "n", no=True), ws(True), ua("a", "u", True), uaw("a", "w", True), no(tag("a")), seq(), rep(tag("a"), True),
           seq(opt(tag("a", "p")), opt(tag("b", "q"))), sel(tag("a", "p"), tag("", "e")), lines(tag("a", "p")), lines(opt(tag("a", "p")), True),
           sep(opt(tag("a", "p")), opt(tag(",")), True, True), node(1, "n"), node(1), opt(lines(ws(True), True)), rep(tag("", "e"), False)]
    some = nul + [tag("a", "p"), tag(",")]
    rs = []
    for x in nul:
        rs += [rep(x, o) for o in (True, False)] + [lines(x, i) for i in (True, False)] + [rep(rep(x, True), False), lines(lines(x, True), True), rep(lines(x), True), lines(rep(x, True))]
        for y in some:
            rs += [sep(x, y, o, tr) for o in (True, False) for tr in (True, False)]
    for r in rs:
        g = grammar(opt(tag("b", "b")), r)
        for _ in range(n):
            out.parse(g, "".join(rng.choice("aab,\n x") for _ in range(rng.randint(0, 6))), opt=rng.choice([0, 1]))
        out.parse(g, "")
    return out

def deep(depths, out=None):
    """Nesting of documents and of grammar text."""
    out = out or Cases()
    for n in depths:
        g = grammar(sel(seq(tag("("), node(1, "n"), tag(")")), tag("x", "x")))
        for t in ("(" * n + "x" + ")" * n, "(" * n, "(" * n + "x" + ")" * (n - 1)):
            for o in (0, 1): out.parse(g, t, opt=o)
        g = grammar(seq(uaw("", "name"), opt(lines(node(1, "child"), True))), lines(node(1), True))
        k = min(n, 120)
        out.parse(g, "\n".join(" " * i + "a" for i in range(k)))
        out.parse(g, "\n".join(" " * i + "a" for i in range(k)) + "\nb")
        for a, b in (("[", "]"), ("{", "}"), (".r?(", ")"), (".l(", ")"), ("?", ""), (".s?(.w! ", ")")):
            m = min(n, 400)
            out.add(op="meta", **{"with": "syntax", "t": cp("1 a = " + a * m + "\"x\"" + b * m)})
            out.add(op="meta", **{"with": "syntax", "t": cp("1 a = " + a * m + "\"x\"" + b * (m - 1))})
        out.add(op="meta", **{"with": "syntax", "t": cp("/*" * min(n, 400) + "*/" * min(n, 400) + "\n1 a = \"x\"")})
    return out

def long_texts(rng, n, out=None, longest=300):
    """Long runs of narrow and wide characters under every kind of rule, where
    errors and reports have to cut them."""
    out = out or Cases()
    word = lambda: rng.choice(["a", "é", "日", "\U0001f600", "aé", "日a", "é\n", "\u00a0a", "\t日", "\"é", "1"])
    for _ in range(n):
        w = word()
        k = rng.choice([rng.randint(1, longest), rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257])])
        t = rng.choice(["", "a", "ab", "abc"]) + (w * k)[:k]
        whole = rng.choice([tag(t, "p"), ua("!", "p"), uaw("!", "p", True), rep(sel(tag(w, "p"), ua("!\n", "q")), True), seq(rep(sel(*[tag(c, c) for c in sorted(set(t))])), opt(tag("!"))),
                            lines(uaw("!", "l"), rng.random() < .5), text("s"), num("n", True), node(1, "n")])
        r = rng.choice([no(whole), seq(no(whole), ua("", "r", True)), seq(no(no(whole)), ua("", "r", True)), sel(seq(whole, tag("?")), ua("!", "r")), tag(t, "p", no=True), tag(t + "?", "p"),
                        seq(tag(t), tag(t)), seq(whole, tag(t[:40])), sep(whole, tag("!"), True, True), opt(seq(whole, tag(t))), rep(seq(whole, tag("!")), True), whole])
        g = grammar(seq(rep(sel(*[tag(c, c) for c in sorted(set(t))])), opt(tag("!"))), r)
        for x in (t, t + "!", t[:-1], t + t[:5], "\"" + t + "\"", "\"" + t, "!" + t):
            out.parse(g, x, opt=rng.choice([0, 1]), errstr=True)
    return out

def selves(out=None):
    """Nodes around nodes: in front of themselves only behind something read, or
    never used at all; optimizing them has to end."""
    out = out or Cases()
    for t in ["0 a = {a}", "0 a = a", "0 a = b\n1 b = a", "0 a = [a \"x\"]", "0 a = .r!(a)", "0 a = {a \"x\"}\n1 b = \"c\"", "0 a = {b \"x\"}\n1 b = {a \"y\"}\n2 c = \"c\"",
              "0 a = ?a\n1 b = \"x\"", "0 a = !!a", "0 a = .s!.(a a)", "0 a = {{{a}}}", "0 a = {[b] [c]}\n1 b = [c]\n2 c = [a]", "0 a = .l(a)\n1 b = {\"x\" a}"]:
        out.add(op="meta", **{"with": "syntax", "t": cp(t)})
    return out

def garbage(rng, n, out=None):
    out = out or Cases()
    bits = ["1 ", "a", " = ", "\"x\"", "[", "]", "{", "}", "(", ")", ".s?", ".r!", ".l", "+", ".w?", ".w!", ".t?", ".$", "_", ":", "!", "?", "..", "...", "\n", "//", "/*", "*/",
            " ", "\\", "é", "\"", "0", "e", "-", "\0", "\r", "\t", "_a:\"b\"\n"]
    for _ in range(n):
        t = "".join(rng.choice(bits) for _ in range(rng.randint(0, 25)))
        if rng.random() < .4: t = "1 a = " + t
        out.add(op="meta", **{"with": "syntax", "t": cp(t)})
    for _ in range(n):
        t = G.rand_written(rng, 3)[0]
        for _ in range(2): t = G.near_miss(rng, t)
        out.add(op="meta", **{"with": "syntax", "t": cp(t)})
    return out

# ------------------------------------------------ grammar text to documents
def runs(rng, n, per=6, out=None):
    """Documents read by compiled grammar text."""
    out = out or Cases()
    made = 0
    while made < n:
        t, want = G.rand_written(rng, rng.randint(1, 3), plain=rng.random() < .7, defined=rng.random() < .93)
        if left_recursive(want["rules"]): continue
        made += 1
        ts = set()
        for _ in range(per): ts.add(rand_text(rng, want["rules"], 14))
        out.add(op="run", gt=cp(t), want=want, docs=[cp(x) for x in sorted(ts)])
    return out

# -------------------------------------------------------------------- trees
def rand_tree(rng, depth, names, value, order):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        n = rng.choice(names)
        x = rng.random()
        if depth and x < .45:
            out.append({"t": "start", "n": cp(n), "v": []})
            out += rand_tree(rng, depth - 1, names, value, order)
            out.append({"t": "end", "n": cp(n), "v": []})
        else:
            out.append(dict(value(rng), n=cp(n)))
    return out

def placed(items):
    """Items in document order, each at a place of its own."""
    p = 0
    for it in items:
        it["o"] = p
        it["e"] = p + (0 if it["t"] == "start" else 1)
        p = it["e"] + 1
    return items

def double(f):
    """Sign, exponent and all digits of a double."""
    s = repr(abs(f))
    m, _, e = s.partition("e")
    a, _, b = m.partition(".")
    if b == "0": b = ""
    digits = (a + b).lstrip("0")
    exp = int(e or 0) - len(b)
    while digits.endswith("0"): digits = digits[:-1]; exp += 1
    if not digits: exp = 0
    return [1 if struct.pack(">d", f)[0] >> 7 else 0, exp] + [int(d) for d in digits]

def two_ways(f):
    """Is the double as near to another decimal of that length as to its own?"""
    from decimal import Decimal, localcontext
    with localcontext() as c:
        c.prec = 900
        d = Decimal(repr(f)); unit = Decimal(1).scaleb(d.as_tuple().exponent)
        return any(float(a) == f and abs(a - Decimal(f)) == abs(d - Decimal(f)) for a in (d - unit, d + unit))

DOUBLES = [0.0, -0.0, 1.0, -1.0, .1, 1e21, 1e22, 1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123, 1 / 3, 2 / 3, 9007199254740993.0,
           1e15, 1e16, 1e17, 123456789012345680.0, 0.30000000000000004, 4.35, 100.0, 1e100, 1.5e-10, -2.5e-300]

def json_value(rng):
    x = rng.random()
    if x < .2: return {"t": "bool", "v": [rng.randint(0, 1)]}
    if x < .45:
        f = rng.choice(DOUBLES) if rng.random() < .5 else rng.choice([1, -1]) * struct.unpack(">d", bytes([rng.randint(0, 0x7e)] + [rng.randrange(256) for _ in range(7)]))[0]
        if abs(f) > 1e40 or 0 < abs(f) < 1e-40: f = rng.random() * 10 ** rng.randint(-9, 9)
        if two_ways(f): f = float("%.9g" % f)
        return {"t": "f64", "v": [0, 0, 0], "d": double(f)}
    return {"t": "str", "v": cp(json_string(rng))}

def json_string(rng):
    c = lambda: rng.choice([chr(rng.randint(0, 0x1f)), rng.choice("\"\\/\b\f\n\r\t"), rng.choice("abc {}[]:,"), chr(rng.randint(0x20, 0x7f)), chr(rng.randint(0x80, 0x9f)),
                            rng.choice("é日ЖΩ\u2028\u2029\ufeff\ufffd"), chr(rng.randint(0x10000, 0x10ffff))])
    return "".join(c() for _ in range(rng.choice([0, 1, 1, 2, 4, 8])))

def json_cases(rng, n, out=None):
    out = out or Cases()
    # every character that could need care, in values and in names
    for c in list(range(0, 0xa1)) + [0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]:
        out.add(op="json", data=[{"t": "str", "n": cp("a"), "v": [c]}])
        out.add(op="json", data=[{"t": "start", "n": [c], "v": []}, {"t": "str", "n": [97, c, 98], "v": [c, c]}, {"t": "end", "n": [c], "v": []}])
    # characters that could be mistaken for an escape
    for t in texts("\\\"u/n0é", 3):
        if len(t) > 1: out.add(op="json", data=[{"t": "str", "n": cp(t), "v": cp(t)}])
    for t in ("\\u0041", "\\u00e9x", "\\\\u0041", "\\ud83d\\ude00", "\\n\n", "</script>", "\r\n", "\n\n", "\\" * 7, "\"" * 7, "é\u0301", "\u2028\u2029", "null", "{}", "0", "x" * 300, "é" * 300, "\n" * 300):
        out.add(op="json", data=[{"t": "start", "n": cp(t), "v": []}, {"t": "str", "n": cp("a" + t), "v": cp(t + "a")}, {"t": "end", "n": cp(t), "v": []}])
    for f in DOUBLES:
        out.add(op="json", data=[{"t": "f64", "n": cp("x"), "v": [0, 0, 0], "d": double(f)}])
    # every small shape
    def shapes(k):
        if k == 0: yield []; return
        for rest in shapes(k - 1):
            yield [{"t": "bool", "n": cp("b"), "v": [1]}] + rest
            yield [{"t": "str", "n": cp("s"), "v": cp("x")}] + rest
        for j in range(k):
            for inner in shapes(j):
                for rest in shapes(k - 1 - j):
                    yield [{"t": "start", "n": cp("n"), "v": []}] + inner + [{"t": "end", "n": cp("n"), "v": []}] + rest
    for k in range(5):
        for s in shapes(k): out.add(op="json", data=s)
    for d in (10, 60):
        out.add(op="json", data=[{"t": "start", "n": cp("n%d" % i), "v": []} for i in range(d)] + [{"t": "end", "n": cp("n%d" % i), "v": []} for i in reversed(range(d))])
    names = ["a", "b", "", "\"", "\\", "é", "\n", "\u0001", "a b", "日"]
    for _ in range(n):
        out.add(op="json", data=rand_tree(rng, 4, [rng.choice(names), json_string(rng)], json_value, None) + rand_tree(rng, 2, names, json_value, None))
    return out

# ------------------------------------------------------------------- reports
KINDS = ["ExpectedWhitespace", "ExpectedNewLine", "ExpectedSomething", "ExpectedNumber", "ExpectedText", "EmptyTextNotAllowed", "ExpectedTag", "DidNotExpectTag", "NoRules",
         "ExpectedEnd", "Invalid", "ExpectedDigits", "ExpectedHexadecimal", "ExpectedFourHexadecimals", "ExpectedValidUnicode", "ExpectedValidEscapeCharacter", "InvalidRule", "Conversion"]

def boundaries(t):
    o = [0]
    for c in t: o.append(o[-1] + len(c.encode("utf8")))
    return o

def report(out, t, kind, a, b, how="write", id_=1003, x="é`x", **more):
    o = boundaries(t)
    err = {"k": kind, "o": o[a], "e": o[b], "id": id_, "x": cp("bad" if kind == "InvalidRule" else x)}
    c = dict(op="report", how=how, t=cp(t), err=err, **more)
    if how == "msg": c["msg"] = cp("Error: é")
    out.add(**c)

def reports_small(n, out=None):
    out = out or Cases()
    for t in texts("aé\n ", n):
        for a in range(len(t) + 1):
            for b in range(a, len(t) + 1):
                if b - a <= 1 or b == len(t):
                    report(out, t, "ExpectedTag" if (a + len(t)) % 2 else "ExpectedSomething", a, b)
    for k in KINDS:
        for id_ in (0, 1, 999, 1000, 123456):
            report(out, "x\n\n  y\nz", k, 4, 5, id_=id_, x="a\"b")
        report(out, "", k, 0, 0)
        report(out, "x", k, 1, 1, how="msg")
    return out

def reports_random(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        ls = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice([0, 0, 1, 3, 10, 30, 74, 75, 76, 77, 99, 100, 101, 102, 126, 150, 180])
            w = rng.choice(["a", "ab ", "é", "a\t", "日b", " ", "\t", "a\U0001f600", "\u00a0", "0123456789"])
            ls.append((w * k)[:k] + rng.choice(["", "", "\r"]))
        t = "\n".join(ls)
        for _ in range(6):
            # at the ends of lines, around the columns that matter, anywhere
            starts = [0] + [i + 1 for i, c in enumerate(t) if c == "\n"]
            s = rng.choice(starts)
            a = min(len(t), rng.choice([s, max(0, s - 1), s + rng.choice([1, 24, 25, 49, 50, 51, 73, 74, 75, 76, 77, 98, 99, 100, 101, 125, 126]), rng.randint(0, len(t)), len(t)]))
            b = min(len(t), a + rng.choice([0, 0, 0, 1, 2, 5, 90, 200, 10 ** 6]))
            report(out, t, rng.choice(["ExpectedTag", "ExpectedTag"] + KINDS), a, b, how=rng.choice(["write", "write", "write", "msg"]), id_=rng.choice([0, 7, 1001, 99999999]))
    return out

def errstrs(rng, n, out=None):
    """Rejected documents, and what parsing them says as text."""
    out = out or Cases()
    for _ in range(n):
        g = rand_grammar(rng, 3)
        for _ in range(4):
            t = "\n".join(rand_text(rng, g["rules"], 20) for _ in range(rng.choice([1, 1, 2])))
            out.parse(g, t, errstr=True, opt=rng.choice([0, 0, 1]))
    return out

# ------------------------------------------------------- cursors over metadata
def cursor_items(rng, names, k):
    out = []
    for _ in range(k):
        t = rng.choice(["start", "end", "bool", "str", "f64"])
        out.append({"t": t, "n": cp(rng.choice(names)), "v": some_value(rng, t)})
    return placed(out)

NUMBERS = [[0, 5, 0], [0, 5, 0], [1, 5, 0], [0, 0, 0], [1, 0, 0], [0, 25, -1], [0, 1, 0], [0, 10001, -4], [0, 9999999, -7], [0, 1, -6], [0, 1, -12], [0, 1000001, 0], [0, 1, 6],
           [0, 5, -1], [0, 1, 30], [0, 2, 30], [0, 1, -30], [0, 2, -30], [0, 42, -1]]

def some_value(rng, t):
    return {"bool": lambda: [rng.randint(0, 1)], "str": lambda: cp(rng.choice(["", "x", "é", "xy", "X", "x ", "yx", "e\u0301"])),
            "f64": lambda: rng.choice(NUMBERS)}.get(t, lambda: [])()

def spread(rng, items):
    """Places in document order, with gaps, with wide items."""
    p = rng.randint(0, 5)
    opens = []
    for it in items:
        it["o"] = p
        it["e"] = p + (0 if it["t"] == "start" else rng.choice([0, 1, 2, 7]))
        if it["t"] == "start": opens.append(p)
        elif it["t"] == "end" and opens: it["o"] = opens.pop()
        p = it["e"] + rng.choice([0, 0, 1, 3])
    return items

def cursor_small(n, out=None):
    """Every sequence of a few items, under every pair of steps."""
    out = out or Cases()
    kinds = [("start", []), ("end", []), ("bool", [1]), ("str", cp("x")), ("f64", [0, 5, 0])]
    its = [(t, nm, v) for t, v in kinds for nm in "ab"][:] if n <= 2 else [(t, "a", v) for t, v in kinds]
    ops = ["start", "end", "str", "f64", "bool", "ignore"]
    for k in range(n + 1):
        for combo in itertools.product(its, repeat=k):
            data = placed([{"t": t, "n": cp(nm), "v": v} for t, nm, v in combo])
            for op in ops:
                out.add(op="cursor", data=data, script=[[op, cp("a")], ["ignore", cp("a")], [op, cp("a")], ["ignore", cp("")], ["ignore", cp("")]])
    return out

def cursor_walks(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        names = rng.choice(NAMED)
        items = rand_tree(rng, 3, names, lambda r: (lambda t: {"t": t, "v": some_value(r, t)})(r.choice(["bool", "str", "f64"])), None) if rng.random() < .6 \
            else cursor_items(rng, names, rng.randint(0, 8))
        items = spread(rng, items)
        script, at = [], 0
        back = {"start": "start", "end": "end", "bool": "bool", "str": "str", "f64": "f64"}
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < .6 and at < len(items):
                it = items[at]
                script.append([it["t"], it["n"]]); at += 1
            elif x < .8:
                script.append(["ignore", cp("a")])
                depth = 0
                while at < len(items):
                    t = items[at]["t"]; at += 1
                    depth += (t == "start") - (t == "end" and depth > 0)
                    if depth == 0: break
            else: script.append([rng.choice(list(back)), cp(rng.choice(names))]); at += 0
        out.add(op="cursor", data=items, script=script)
    return out

def search_small(n, out=None):
    out = out or Cases()
    kinds = [("start", []), ("end", []), ("bool", [1]), ("bool", [0]), ("str", cp("x")), ("f64", [0, 5, 0])]
    steps = [["bool"], ["f64"], ["str"], ["node"], ["end"], ["for_bool", [1]], ["for_bool", [0]], ["for_f64", [0, 5, 0]], ["for_str", cp("x")], ["for_node"], ["for_end"]]
    def st(s, nm, enter): return [s[0], cp(nm)] + ([s[1]] if len(s) > 1 else []) + (["in"] if enter else [])
    for k in range(n + 1):
        for combo in itertools.product(kinds, repeat=k):
            data = placed([{"t": t, "n": cp("a" if (i + len(v)) % 3 else "b"), "v": v} for i, (t, v) in enumerate(combo)])
            for s in steps:
                for nm in "ab":
                    out.add(op="search", data=data, script=[st(s, nm, True), st(s, "a", False), st(steps[k % 5], "a", False), st(s, nm, True)])
    return out

NAMED = [["a", "b", "é"]] * 4 + [["a", "A", "aB", "ab", "AB"], ["a", "a ", " a", "", "aa"], ["é", "e\u0301", "É", "e"], ["k", "\u212a", "K", "ß", "ss"], ["i", "\u0131", "I", "\u0130"],
                                    ["x" * 40, "x" * 39 + "y", "y" + "x" * 39, "x" * 41], ["a.b", "a_b", "a-b", "a\0b", "a"], ["日", "旦", "日日"]]

def search_walks(rng, n, out=None):
    out = out or Cases()
    for _ in range(n):
        names = rng.choice(NAMED)
        items = rand_tree(rng, 3, names, lambda r: (lambda t: {"t": t, "v": some_value(r, t)})(r.choice(["bool", "str", "f64"])), None) \
            + cursor_items(rng, names, rng.randint(0, 5))
        items = spread(rng, items)
        script, at = [], 0
        read = {"start": "node", "end": "end", "bool": "bool", "str": "str", "f64": "f64"}
        for _ in range(rng.randint(1, 9)):
            x = rng.random()
            it = rng.choice(items) if items and x > .5 else (items[at] if at < len(items) else None)
            if it is not None and rng.random() < .1:
                it = dict(it, n=cp(confused(rng, "".join(map(chr, it["n"])))))
                if it["t"] == "str": it["v"] = cp(confused(rng, "".join(map(chr, it["v"]))))
            if it is None or rng.random() < .15:
                it = {"t": rng.choice(list(read)), "n": cp(rng.choice(names)), "v": None}
                it["v"] = some_value(rng, it["t"])
            if x <= .5:
                script.append([read[it["t"]], it["n"]])
                if at < len(items) and items[at]["t"] == it["t"] and items[at]["n"] == it["n"]: at += 1
            else:
                s = ["for_" + read[it["t"]], it["n"]]
                if it["t"] in ("bool", "str", "f64"): s.append(it["v"] if rng.random() < .8 else some_value(rng, it["t"]))
                if rng.random() < .6:
                    s.append("in")
                    for j in range(at, len(items)):
                        if items[j]["t"] == it["t"] and items[j]["n"] == it["n"]: at = j + 1; break
                script.append(s)
        out.add(op="search", data=items, script=script, **({"fail": [i for i in range(1, len(script) + 1) if rng.random() < .4]} if rng.random() < .25 else {}))
    return out

# ------------------------------------------------------- metadata of grammars
def meta_items(rng, rules, names, numbers, strings):
    """What reading a grammar text would give: fields of a node in any order."""
    out = []
    def put(t, n, v=()): out.append({"t": t, "n": cp(n), "v": list(v)})
    def string(n, v): put("str", n, v)
    def flag(n, v): put("bool", n, [int(v)])
    def set_(n, v):
        put("start", n)
        refs = [k for k, s in strings.items() if cp(s) == v]
        if refs and rng.random() < .5: string("ref", cp(rng.choice(refs)))
        else: string("value", v)
        put("end", n)
    def fields(fs):
        if rng.random() < .2: rng.shuffle(fs)
        for f in fs: f()
    def prop(r): return [lambda: set_("property", r["prop"][0])] if r["prop"] else []
    def within(n, r):
        put("start", n); rule(r); put("end", n)
    def rule(r):
        k = r["k"]
        n = {"ws": "whitespace", "tag": "tag", "ua": "until_any", "uaw": "until_any_or_whitespace", "text": "text", "num": "number", "sel": "select", "seq": "sequence",
             "sep": "separated_by", "rep": "repeat", "lines": "lines", "node": "reference", "opt": "optional", "not": "not"}[k]
        put("start", n)
        if k == "ws": flag("optional", r["opt"])
        elif k == "tag":
            fs = [lambda: set_("text", r["text"])]
            if r["not"] or rng.random() < .1: fs.insert(0, lambda: flag("not", r["not"]))
            if r["inv"] or rng.random() < .1: fs.append(lambda: flag("inverted", r["inv"]))
            fields(fs + prop(r))
        elif k in ("ua", "uaw"): fields([lambda: set_("any_characters", r["any"]), lambda: flag("optional", r["opt"])] + prop(r))
        elif k == "text": fields([lambda: flag("allow_empty", r["empty"])] + prop(r))
        elif k == "num": fields(([lambda: flag("underscore", True)] if r["us"] else []) + prop(r))
        elif k in ("sel", "seq"):
            for x in r["args"]: within("rule", x)
        elif k == "sep":
            fields([lambda: flag("optional", r["opt"])] + ([lambda: flag("allow_trail", r["trail"])] if r["trail"] or rng.random() < .2 else [])
                   + [lambda: within("by", r["by"]), lambda: within("rule", r["rule"])])
        elif k == "rep": fields([lambda: flag("optional", r["opt"]), lambda: within("rule", r["rule"])])
        elif k == "lines":
            if r["indent"]: flag("indent", True)
            within("rule", r["rule"])
        elif k in ("opt", "not"): within("rule", r["rule"])
        elif k == "node": fields([lambda: string("name", r["name"])] + prop(r))
        put("end", n)
    for k, v in strings.items():
        put("start", "string"); fields([lambda: string("name", cp(k)), lambda: string("text", cp(v))]); put("end", "string")
    for r, n, m in zip(rules, names, numbers):
        put("start", "node")
        fields([lambda: put("f64", "id", m), lambda: string("name", n), lambda: within("rule", r)])
        put("end", "node")
    return out

META_NAMES = ["sequence", "select", "tag", "until_any_or_whitespace", "until_any", "whitespace", "text", "number", "reference", "optional", "not", "separated_by", "lines", "repeat",
              "node", "string", "rule", "by", "property", "any_characters", "inverted", "allow_empty", "underscore", "allow_trail", "indent", "name", "ref", "value", "id", "other", ""]

def shaken(rng, items):
    """Something unexpected somewhere."""
    x = list(items)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(x))
        k = rng.random()
        if k < .35:     # an unknown item or node, with something in it
            n = cp(rng.choice(META_NAMES))
            t = rng.choice(["bool", "str", "f64", "node", "node"])
            if t == "node":
                inner = [dict(y) for y in x[i:i + rng.randint(0, 2)] if y["t"] not in ("start", "end")]
                new = [{"t": "start", "n": n, "v": []}] + inner + [{"t": "end", "n": n, "v": []}]
                if rng.random() < .3: new = new[:1] + new + new[-1:]
            else: new = [{"t": t, "n": n, "v": some_value(rng, t)}]
            x[i:i] = new
        elif k < .5 and x: del x[min(i, len(x) - 1)]
        elif k < .6 and x:
            y = dict(x[min(i, len(x) - 1)]); x[i:i] = [y]
        elif k < .75 and x:
            j = min(i, len(x) - 1); n = cp(rng.choice(META_NAMES))
            if x[j]["t"] == "start":    # rename the whole node
                d = 0
                for l in range(j, len(x)):
                    d += (x[l]["t"] == "start") - (x[l]["t"] == "end")
                    if d == 0: x[l] = dict(x[l], n=n); break
            x[j] = dict(x[j], n=n)
        elif k < .9 and x:              # remove a whole node
            j = min(i, len(x) - 1)
            if x[j]["t"] == "start":
                d = 0
                for l in range(j, len(x)):
                    d += (x[l]["t"] == "start") - (x[l]["t"] == "end")
                    if d == 0: del x[j:l + 1]; break
            else: del x[j]
        else:
            j = rng.randint(0, len(x)); a, b = min(i, j), max(i, j)
            if rng.random() < .5: x = x[:a] + x[b:]
            else: x = x[:b] + [dict(y) for y in x[a:b][:20]] + x[b:]
    return x

def conversions(rng, n, per=6, out=None):
    out = out or Cases()
    for _ in range(n):
        strs = rng.sample(G.STRS, 3)
        strings = dict(zip(["s", "t"], strs)) if rng.random() < .5 else {}
        k = rng.randint(1, 3)
        names = [rng.choice(["a", "b", "é"]) for _ in range(k)]
        rules = [G.written_rule(rng, rng.randint(0, 3), names + ["zz"], strs) for _ in range(k)]
        numbers = [rng.choice([[0, i, 0], [0, 10 * i + 5, 0], [0, 15, -1], [0, 1, 6], [1, 2, 0], [0, 25, 2]]) for i in range(k)]
        items = meta_items(rng, rules, [cp(x) for x in names], numbers, strings)
        if len(items) > 150: continue
        out.add(op="convert", data=spread(rng, [dict(x) for x in items]))
        for _ in range(per):
            out.add(op="convert", data=spread(rng, [dict(x) for x in shaken(rng, items)]))
    return out

def conversions_edits(out=None, share=1.0, rng=None):
    """Metadata of every kind of rule, with every one of its items left out,
    doubled, given again with another value, renamed or moved by one."""
    import random
    out, rng = out or Cases(), rng or random.Random(0)
    x = tag("x", "p")
    forms = [ws(True), ws(False), tag("a", None, no=True), tag("a", "p", no=True, inv=True), ua("a", "p", True), ua("", None, False), uaw("a", "p", True), uaw("b", None, False), text("p", True), text(None, False), num("p", True), num(None, False),
             sel(x, tag("b")), seq(x, tag("b")), sep(x, tag(","), True, True), sep(x, tag(","), False, False), rep(x, True), rep(x, False), lines(x, True), lines(x, False), node(0, "p", "a"), node(0, None, "b"), opt(x), no(x)]
    for r in forms:
        items = meta_items(rng, [r], [cp("a")], [[0, 1, 0]], {"s": "x"})
        def put(new):
            if share == 1 or rng.random() < share: out.add(op="convert", data=placed([dict(y) for y in new]))
        put(items)
        for i, it in enumerate(items):
            put(items[:i] + items[i + 1:])
            put(items[:i + 1] + items[i:])
            if i: put(items[:i - 1] + [items[i], items[i - 1]] + items[i + 1:])
            if it["t"] == "bool": others_ = [[1 - it["v"][0]]]
            elif it["t"] == "str": others_ = [cp("s"), [], cp("zz")]
            elif it["t"] == "f64": others_ = [[0, 2, 0], [1, 1, 0]]
            else: others_ = []
            for v in others_:
                new = dict(it, v=v)
                put(items[:i] + [new] + items[i + 1:]); put(items[:i] + [new] + items[i:]); put(items[:i + 1] + [new] + items[i + 1:])
            for n in ("value", "ref", "optional", "name", "other", "rule"):
                if cp(n) != it["n"]: put(items[:i] + [dict(it, n=cp(n))] + items[i + 1:])
            for t, v in (("bool", [1]), ("str", cp("x")), ("start", [])):
                if t != it["t"]: put(items[:i] + [dict(it, t=t, v=v)] + items[i + 1:])
            if it["t"] == "start":
                d = 0
                for j in range(i, len(items)):
                    d += (items[j]["t"] == "start") - (items[j]["t"] == "end")
                    if d == 0: break
                put(items[:i] + items[j + 1:]); put(items[:j + 1] + items[i:]); put(items[:i + 1] + items[j:])
                put(items[:i + 1] + items[i:j + 1] + items[j:])
    return out

def conversions_small(n, out=None):
    """Every short sequence of items with the names that matter."""
    out = out or Cases()
    its = [("start", "node", []), ("end", "node", []), ("start", "rule", []), ("end", "rule", []), ("str", "name", cp("x")),
           ("start", "whitespace", []), ("end", "whitespace", []), ("bool", "optional", [1]), ("start", "sequence", []), ("end", "sequence", [])]
    for k in range(n + 1):
        for combo in itertools.product(its, repeat=k):
            out.add(op="convert", data=placed([{"t": t, "n": cp(nm), "v": v} for t, nm, v in combo]))
    return out

def conversions_odd(rng, n, out=None):
    """Sequences that are no trees at all."""
    out = out or Cases()
    for _ in range(n):
        items = [{"t": rng.choice(["start", "end", "bool", "str", "f64"]), "n": cp(rng.choice(META_NAMES[:27]))} for _ in range(rng.randint(0, 12))]
        for it in items: it["v"] = some_value(rng, it["t"])
        out.add(op="convert", data=spread(rng, items))
    for k in (1, 50, 3000):
        for nm in ("sequence", "node", "rule", "separated_by", "tag", "optional"):
            s, e = {"t": "start", "n": cp(nm), "v": []}, {"t": "end", "n": cp(nm), "v": []}
            out.add(op="convert", data=placed([dict(s) for _ in range(k)]))
            out.add(op="convert", data=placed([dict(e) for _ in range(k)]))
            out.add(op="convert", data=placed([dict(s) for _ in range(k)] + [dict(e) for _ in range(k - 1)]))
    return out

# ----------------------------------------------------------------- histories
def alike(rng, t):
    """Texts of the same length, or nearly so, that differ in a single place."""
    out = [t]
    for _ in range(3):
        i = rng.randint(0, len(t))
        x = rng.random()
        if x < .3 and t:
            i = min(i, len(t) - 1); out.append(t[:i] + rng.choice("ab \nx") + t[i + 1:])
        elif x < .6 and len(t) > 1:     # two neighbours change places
            i = min(max(i, 1), len(t) - 1); out.append(t[:i - 1] + t[i] + t[i - 1] + t[i + 1:])
        elif x < .8: out.append(confused(rng, t))
        else: out.append(t[:i] + rng.choice([" ", "\n", "a"]) + t[i:])
    return out

def alike_texts(rng):
    """Grammar texts that differ in a string, in blanks inside strings, in a flag, in a number or in order."""
    w = rng.choice(["a", "ab", " ", "a ", " a", "\n", "é", "x\\ny", "a  b"])
    form = rng.choice(["1 a = \"%s\":\"p\"", "_p: \"%s\"\n1 a = [_p .w?]", "1 a = \"x\"\n2 b = [a \"%s\":\"q\"]", "1 a = {\"%s\":\"p\" ..\"\"?:\"q\"}", "1 a = ..\"%s\"?:\"p\"\n", "1 a = .l(\"%s\":\"p\")"])
    base = form % w
    out = [base] + [form % x for x in rng.sample([w + " ", " " + w, w + "\n", "\n" + w, w + w, w.upper(), "b", w[::-1], w.strip() or "c"], 3)]
    y = rng.random()
    if y < .25: out.append(base.replace("1 a", "2 a"))
    elif y < .5: out.append(base + rng.choice(["\n", " ", "\n3 c = \"y\"", " // x", "x"]))
    elif y < .75: out.append(base.replace("?", "!"))
    else: out.append("3 c = \"y\"\n" + base)
    return out

def histories(rng, n, out=None, threads=(1, 2, 4), calls=(2, 4), compile_first=False, small=True):
    out = out or Cases()
    for _ in range(n):
        gs = [rand_grammar(rng, 3) if rng.random() < .7 else rng.choice(list(block_grammars())) for _ in range(rng.randint(1, 3))]
        nums = [[out.grammar(g), rng.choice([0, 1, 2])] for g in gs]
        docs = [[cp(rand_text(rng, g["rules"])) for _ in range(3)] for g in gs]
        texts_ = [G.rand_written(rng, 2, nodes=2, plain=True)[0] for _ in range(2)]
        texts_ += [G.near_miss(rng, texts_[0])]
        if rng.random() < .5:   # texts, documents and settings that are nearly the same
            texts_ = alike_texts(rng)
            docs = [[cp(t) for t in alike(rng, "".join(map(chr, d[0])))] for d in docs]
        runs_ = []
        for _ in range(2):
            gt, want = G.rand_written(rng, 2, nodes=2, plain=True, defined=True)
            if not left_recursive(want["rules"]): runs_.append({"gt": cp(gt), "docs": [cp(rand_text(rng, want["rules"], 12)) for _ in range(2)]})
        settings = [{}, {"tab": 2}, {"align": False}, {"ind": 1}, {"align": False, "ind": 1}, {"tab": 2, "align": False, "ind": 1}]
        lists = []
        for _ in range(rng.choice(threads)):
            l = []
            if compile_first: l.append({"do": "compile", "t": cp(rng.choice(texts_))})
            for _ in range(rng.choice(calls)):
                k = rng.randrange(len(gs))
                x = rng.random()
                if x < .25: l.append({"do": "compile", "t": cp(rng.choice(texts_))})
                elif x < .4 and runs_: l.append(dict({"do": "run"}, **rng.choice(runs_)))
                elif x < .85: l.append({"do": "parse", "g": k + 1, "t": rng.choice(docs[k])})
                else:
                    t = rng.choice(docs[k])
                    for s in rng.sample(settings, 2): l.append(dict({"do": "parse", "g": k + 1, "t": t}, **s))
            lists.append(l)
        out.add(op="history", gs=nums, threads=lists)
    return out

def other_calls(rng):
    """Calls of every kind, small ones."""
    some = Cases()
    json_cases(rng, 6, some); reports_random(rng, 6, some); search_walks(rng, 6, some); cursor_walks(rng, 4, some); conversions_odd(rng, 4, some)
    for t in alike_texts(rng): some.add(op="meta", **{"with": rng.choice(["syntax", "builtin"])}, t=cp(t))
    few = [c for c in some.cases if "g" not in c and not c.get("print") and "room" not in c and len(json.dumps(c)) < 4000]
    near = []
    for c in rng.sample(few, min(4, len(few))):   # the same place, another text; the same text, another place
        c = json.loads(json.dumps(c))
        if c["op"] == "report" and len(c["t"]) > 1:
            c["t"] = [97 if x < 128 and x != 10 else x for x in c["t"]]
            near.append(c)
        if c["op"] in ("json", "search", "cursor"):
            for it in c["data"]:
                if it["t"] == "bool": it["v"] = [1 - it["v"][0]]
            near.append(c)
    return few + near

def ordered_histories(rng, n, out=None):
    """Calls of every kind, by threads taking turns in a given order; calls in the middle of others; one collection for all."""
    out = out or Cases()
    for _ in range(n):
        gs = [rand_grammar(rng, 2) if rng.random() < .7 else rng.choice(list(block_grammars())) for _ in range(2)]
        nums = [[out.grammar(g), rng.choice([0, 1, 2])] for g in gs]
        docs = [[cp(d) for d in alike(rng, rand_text(rng, g["rules"]))] + [cp(rand_text(rng, g["rules"]))] for g in gs]
        texts_, others = alike_texts(rng), other_calls(rng)
        one = rng.random() < .5
        def simple(into=True):
            x = rng.random()
            k = rng.randrange(2)
            if x < .3: return {"do": "compile", "t": cp(rng.choice(texts_))}
            if x < .5 or not into: return dict({"do": "parse", "g": k + 1, "t": rng.choice(docs[k])}, **rng.choice([{}, {"tab": 2}, {"align": False}, {"ind": 1}]))
            return {"do": "into", "g": k + 1, "t": rng.choice(docs[k])}
        def other(deep=True):
            c = {"do": "case", "case": rng.choice(others)}
            if deep and c["case"]["op"] in ("json", "report", "search") and rng.random() < .6:
                c["within"] = [simple(False) if rng.random() < .5 else other(False) for _ in range(rng.randint(1, 2))]
                if rng.random() < .4: c["within"].append({"do": "case", "case": rng.choice([o for o in others if o["op"] == c["case"]["op"]])})
                c["when"] = rng.choice([1, 1, 2, 3, 5, 9])
            return c
        lists = [[simple() if rng.random() < .55 else other() for _ in range(rng.randint(2, 5))] for _ in range(rng.choice([1, 2, 2, 3]))]
        for l in lists:
            if rng.random() < .5: l.append(l[0])   # the first again
        more = {"one": True} if one else {}
        if rng.random() < .7:
            more["order"] = [i + 1 for i, l in enumerate(lists) for _ in l]
            rng.shuffle(more["order"])
        elif one: continue      # in no order, into one: not a question
        out.add(op="history", gs=nums, threads=lists, **more)
    return out

def worn(rng, n, times, out=None):
    """The same call again and again."""
    out = out or Cases()
    for _ in range(n):
        gs = [rand_grammar(rng, 2) for _ in range(2)]
        nums = [[out.grammar(g), rng.choice([0, 1])] for g in gs]
        t, u = cp(rand_text(rng, gs[0]["rules"])), cp(rand_text(rng, gs[1]["rules"]))
        c = cp(G.rand_written(rng, 1, nodes=1, plain=True)[0])
        out.add(op="history", gs=nums, threads=[[{"do": "parse", "g": 1, "t": t, "times": times}, {"do": "parse", "g": 2, "t": u}, {"do": "compile", "t": c, "times": times // 20}, {"do": "parse", "g": 1, "t": t}]])
    return out

# --------------------------------------------------------- self-descriptions
ASSETS = "/repo/assets/"
SELF, SELF1, NEW, OLD, OLDSELF = [ASSETS + x + ".txt" for x in ("self-syntax", "self-syntax-1.0", "new-self-syntax", "old-syntax", "old-self-syntax")]

def boot_fix(out=None, longest=3):
    """Chains of self-descriptions, each read by the one before."""
    out = out or Cases()
    read = lambda f: cp(open(f, encoding="utf8").read())
    def fix(chain, same, fixed): out.add(op="fix", chain=chain, texts=[read(f) for f in chain], same=same, fixed=fixed, fast=False)
    for f, same in ((SELF, True), (SELF1, False)):
        for k in range(1, longest + 1): fix([f] * k, same, k > 1)
    fix([SELF, SELF1], False, False)
    for k in range(1, longest + 1): fix([NEW] * k, False, k > 1)
    fix([SELF, NEW], False, False)
    fix([OLD], False, False); fix([OLD, OLDSELF], False, False); fix([OLD, OLDSELF, OLDSELF], False, True)
    fix([SELF, OLD, OLDSELF], False, False)
    return out

def boots(rng, n, out=None):
    """Grammar texts read by compiled self-descriptions."""
    out = out or Cases()
    read = lambda f: cp(open(f, encoding="utf8").read())
    ts = []
    for t in G.WRONG: ts.append(t)
    for _ in range(n):
        t = G.rand_written(rng, rng.randint(1, 3))[0]
        ts += [t, G.near_miss(rng, t)]
    for i, t in enumerate(ts):
        chain = [[SELF], [SELF, SELF]][i // 2 % 2]
        out.add(op="boot", chain=chain, same=True, t=cp(t), fast=i % 2 == 0)
    for f in (SELF, SELF1, NEW, OLD):
        for chain in ([SELF], [SELF, SELF], []):
            for fast in (False, True): out.add(op="boot", chain=chain, same=True, t=read(f), fast=fast)
    for i, t in enumerate(ts[::4]):
        f = [NEW, SELF1][i // 2 % 2]
        out.add(op="boot", chain=[f], same=False, texts=[read(f)], t=cp(t.replace(".l+", ".l") if i % 2 else t), fast=i % 3 == 0)
    for fast in (False, True):
        out.add(op="boot", chain=[OLD], same=False, texts=[read(OLD)], t=read(OLDSELF), fast=fast)
        out.add(op="boot", chain=[OLD, OLDSELF], same=False, texts=[read(OLD), read(OLDSELF)], t=read(OLDSELF), fast=fast)
        out.add(op="boot", chain=[OLD], same=False, texts=[read(OLD)], t=read(OLD), fast=fast)
    return out

def rand_item_value(rng, t):
    return {"t": t, "v": some_value(rng, t)}

def loads(rng, n, out=None):
    """Grammar and document from files."""
    out = out or Cases()
    ends = ["\n", "\r\n", "\r", "\n\n", " ", "\t", "", "\u0000", "\u001a", "\ufeff", "\u2028", "\u0085"]
    for i in range(n):
        if i % 2:
            # Every character of the files counts, at their starts and ends, too.
            g = rng.choice(["1 doc = ...\"\"?:\"r\"", "1 doc = ...\"\"!:\"r\"", "1 doc = .l(..\"\"!:\"w\")", "1 doc = [..\"\"?:\"w\" ...\"\"?:\"r\"]", "1 doc = .r?({.w!:\"s\" ..\"\"!:\"w\"})".replace(":\"s\"", ""), "1 l = ...\"\\n\"!:\"l\"\n2 doc = .s?.(\"\\n\" l)",
                            "1 doc = [\"a\":\"a\" ?\"\\r\":\"cr\" \"\\n\" ...\"\"?:\"r\"]", "1 doc = [\"a%s\":\"p\" ...\"\"?:\"r\"]" % rng.choice(ends)])
            t = rng.choice(["", "", "", rng.choice(ends)]) + "".join(rng.choice(["a", "b", "é", ""]) + rng.choice(ends) for _ in range(rng.choice([0, 1, 2, 3])))
            gt = rng.choice(["", "", "", "", rng.choice(ends)]) + (g if rng.random() < .7 else g.replace("\n", "\r\n")) + rng.choice(["", "", "\n", "\r\n", rng.choice(ends)])
            out.add(op="load", gt=cp(gt), t=cp(t))
            continue
        t, want = G.rand_written(rng, 2, defined=True)
        if left_recursive(want["rules"]): continue
        for d in {rand_text(rng, want["rules"], 14) for _ in range(3)}: out.add(op="load", gt=cp(t), t=cp(d))
        out.add(op="load", gt=cp(G.near_miss(rng, t)), t=cp(d))
    return out

def syntax_errors(rng, n, out=None):
    """Wrong grammar texts, and what compiling them says as text."""
    out = out or Cases()
    for t in G.WRONG: out.add(op="meta", errstr=True, **{"with": "syntax", "t": cp(t)})
    for _ in range(n):
        t = G.near_miss(rng, G.rand_written(rng, 2)[0])
        out.add(op="meta", errstr=True, **{"with": "syntax", "t": cp(t)})
    return out

def narrow(rng, out, n):
    """Some of the cases once more, with writers that take only part of the text, and on standard output."""
    had = [c for c in out.cases if c["op"] in ("json", "report") and len(c.get("t", c.get("data"))) < 200]
    for c in rng.sample(had, min(n, len(had))):
        more = dict(room=rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 200, 10 ** 6, 10 ** 6]), chunk=rng.choice([1, 2, 3, 4, 7, 100]))
        if c["op"] == "json" and rng.random() < .2: more = {"print": True}
        if c["op"] == "report":
            e = lambda: dict(rng.choice(had)["err"]) if had[0]["op"] == "report" else c["err"]
            more["past"] = [e() for _ in range(rng.randint(0, 3))]
        out.add(**dict(c, **more))
    return out

"""Rules as plain data (the exchange format of the specification and the
harness), and what generators need to know about them."""

def cp(s):
    return [ord(c) for c in s]

def _prop(p):
    return [] if p is None else [cp(p)]

def ws(opt=False): return {"k": "ws", "opt": opt}
def tag(text, prop=None, no=False, inv=False):
    return {"k": "tag", "text": cp(text), "not": no, "inv": inv, "prop": _prop(prop)}
def ua(any_, prop=None, opt=False):
    return {"k": "ua", "any": cp(any_), "opt": opt, "prop": _prop(prop)}
def uaw(any_, prop=None, opt=False):
    return {"k": "uaw", "any": cp(any_), "opt": opt, "prop": _prop(prop)}
def text(prop=None, empty=True): return {"k": "text", "empty": empty, "prop": _prop(prop)}
def num(prop=None, us=False): return {"k": "num", "us": us, "prop": _prop(prop)}
def sel(*args): return {"k": "sel", "args": list(args)}
def seq(*args): return {"k": "seq", "args": list(args)}
def sep(rule, by, opt=False, trail=False):
    return {"k": "sep", "rule": rule, "by": by, "opt": opt, "trail": trail}
def rep(rule, opt=False): return {"k": "rep", "rule": rule, "opt": opt}
def lines(rule, indent=False): return {"k": "lines", "rule": rule, "indent": indent}
def node(idx, prop=None, name=None):
    return {"k": "node", "name": cp(name or "n%d" % idx), "prop": _prop(prop), "idx": idx}
def opt(rule): return {"k": "opt", "rule": rule}
def no(rule): return {"k": "not", "rule": rule}

def children(r):
    k = r["k"]
    if k in ("sel", "seq", "fast"): return r["args"]
    if k == "sep": return [r["rule"], r["by"]]
    if k in ("rep", "lines", "opt", "not"): return [r["rule"]]
    return []

def copy(r):
    r = dict(r)
    if "args" in r: r["args"] = [copy(x) for x in r["args"]]
    for f in ("rule", "by"):
        if f in r: r[f] = copy(r[f])
    return r

def grammar(*rules):
    """Numbers the rules as the meta language does: node n counts from 1000 n,
    parts before the whole."""
    out = []
    for n, r in enumerate(rules, 1):
        r = copy(r)
        cnt = [1000 * n]
        def go(x):
            for c in ([x["by"], x["rule"]] if x["k"] == "sep" else children(x)): go(c)
            cnt[0] += 1
            x["id"] = cnt[0]
        go(r)
        out.append(r)
    return {"rules": out}

def walk(r):
    yield r
    for c in children(r):
        yield from walk(c)

def size(r):
    return 1 + sum(size(c) for c in children(r))

# ------------------------------------------------------------ left recursion
def nullables(rules):
    n = [False] * len(rules)
    def nul(r):
        k = r["k"]
        if k == "ws": return r["opt"]
        if k == "tag": return r["not"] or not r["text"]
        if k in ("ua", "uaw"): return r["opt"]
        if k in ("text", "num"): return False
        if k in ("sel", "fast"): return any(nul(a) for a in r["args"])
        if k == "seq": return all(nul(a) for a in r["args"])
        if k in ("sep", "rep"): return r["opt"] or nul(r["rule"])
        if k == "node": return r["idx"] > 0 and n[r["idx"] - 1]
        return True
    while True:
        m = [nul(r) for r in rules]
        if m == n: return n, nul
        n[:] = m

def left_calls(r, nul):
    k = r["k"]
    if k == "node": return {r["idx"]} if r["idx"] else set()
    if k in ("sel", "fast"): return set().union(*[left_calls(a, nul) for a in r["args"]]) if r["args"] else set()
    if k == "seq":
        s = set()
        for a in r["args"]:
            s |= left_calls(a, nul)
            if not nul(a): break
        return s
    if k == "sep":
        s = left_calls(r["rule"], nul)
        return s | left_calls(r["by"], nul) if nul(r["rule"]) else s
    s = set()
    for c in children(r): s |= left_calls(c, nul)
    return s

def left_recursive(rules):
    _, nul = nullables(rules)
    g = {i + 1: left_calls(r, nul) for i, r in enumerate(rules)}
    state = {}
    def visit(i):
        if state.get(i) == 1: return True
        if state.get(i) == 2: return False
        state[i] = 1
        bad = any(visit(j) for j in g.get(i, ()))
        state[i] = 2
        return bad
    return any(visit(i) for i in g)

# --------------------------------------------------------------- random rules
TAGS = ["a", "b", "ab", "aa", "ba", "é", "(", ")", ",", "日", "x\n", "", "é!", "ê", "if", "i", ";", "\n", " ", "1", "-"]
PROPS = [None, None, "p", "q", "é"]
SETS = ["", ",", "()", "é", "ab", "日;", "\n", "\""]

def rand_leaf(rng):
    x = rng.random()
    p = rng.choice(PROPS)
    if x < .50: return tag(rng.choice(TAGS), p, no=rng.random() < .12, inv=rng.random() < .2)
    if x < .60: return ws(rng.random() < .6)
    if x < .70: return uaw(rng.choice(SETS), p, rng.random() < .3)
    if x < .78: return ua(rng.choice(SETS), p, rng.random() < .3)
    if x < .88: return text(p, rng.random() < .5)
    return num(p, rng.random() < .5)

def rand_rule(rng, depth, nrules):
    if depth <= 0 or rng.random() < .18:
        if nrules and rng.random() < .25:
            return node(rng.randint(1, nrules), rng.choice(PROPS)) if rng.random() < .98 else node(0, rng.choice(PROPS), rng.choice(["nope", "n9", ""]))
        return rand_leaf(rng)
    x = rng.random()
    sub = lambda: rand_rule(rng, depth - 1, nrules)
    b = lambda: rng.random() < .5
    if x < .27: return seq(*[sub() for _ in range(rng.choice([0, 1, 2, 2, 3, 3]))])
    if x < .52: return sel(*[sub() for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))])
    if x < .64: return sep(sub(), sub(), b(), b())
    if x < .74: return rep(sub(), b())
    if x < .82: return opt(sub())
    if x < .88: return no(sub())
    if x < .94: return lines(sub(), b())
    return node(rng.randint(1, nrules), rng.choice(PROPS)) if nrules else sub()

def rand_grammar(rng, depth=3, maxrules=3):
    while True:
        n = rng.randint(1, maxrules)
        rules = [rand_rule(rng, depth, n) for _ in range(n)]
        if sum(size(r) for r in rules) > 40: continue
        if left_recursive(rules): continue
        return grammar(*rules)

# ---------------------------------------------------- documents from a grammar
CHARS = "abé(),; \n\t\r\"1日x\\i_.-\u3000\u00a0"
# What a lenient reader could take for something else.
CONFUSED = {"\n": ["\r\n", "\r", "\u2028", "\x0b", "\n\n"], " ": ["\u00a0", "\t", "\u200b", "\u3000", ""], "\t": ["    ", " "], "a": ["A", "\u0430", "\uff41"],
            "b": ["B", "\u0432"], "é": ["e\u0301", "É", "e"], "ê": ["Ê", "e\u0302"], "1": ["\uff11", "\u0661", "\u00b9"], "\"": ["'", "\u201c", "``", "\"\""], ",": ["\uff0c", ";", "\u060c"],
            "(": ["\uff08", "["], ")": ["\uff09", "]"], "-": ["\u2212", "\u2013"], ".": ["\uff0e", ","], ";": ["\u037e", ":"], "i": ["I", "\u0131", "\u0130"], "x": ["X", "\u00d7"],
            "f": ["F"], "日": ["\u2f47"], "_": ["\uff3f", ""], "e": ["E"], "\r": ["\n", ""]}

def families():
    """Words that differ in one place only, or in length."""
    out = []
    for base in ("xyzhklmn", "xyzhklmnoqrs", "xyzh" * 4, "klmnhxyz" * 4, "xyz日h" * 3, "h" * 64, "xyzhklmn" * 9, "n" * 130):
        l = [base, base, base[:-1], base + "x", base[1:], base.upper() if len(base) < 20 else base + base]
        for i in sorted({0, 1, 3, 4, len(base) // 2, len(base) - 3, len(base) - 2, len(base) - 1}):
            for c in "wé": l.append(base[:i] + c + base[i + 1:])
        out.append(l)
    return out
FAMILIES = families()
ONLY = [None]   # whether the document being made has words of one family only

def word(rng, bad=(), longest=140):
    """One of them, without the given characters."""
    l = ONLY[0] or rng.choice(FAMILIES if longest > 18 and rng.random() < .4 else FAMILIES[:4])
    for _ in range(4):
        w = rng.choice(l)
        if not set(w) & set(bad) and len(w) <= longest: return w
    return ""

def rand_number(rng):
    return rng.choice(["0", "1", "-1", "+1", "12", "1.5", "0.25", "-3.5e2", "1e3", "2E-2", ".5", "5.", "1_000",
                       "1__0", "1_", "+", "-", ".", "e", "1e", "1e+", "1.2.3", "1e2e3", "-.5", "00012", "1.50",
                       "100000", "-0", "1e-3", "_1", "1_.5", "1._5", "1e_1", "1.e1", "--1", "1-1", "1+1", "--"]) \
        if rng.random() < .6 else str(rng.randint(-10 ** 6, 10 ** 6) / rng.choice([1, 2, 4, 10, 100]))

def rand_quoted(rng):
    parts = ["", "a", "b", "é", "日", " ", "\\n", "\\\"", "\\\\", "\\/", "\\t", "\\r", "\\b", "\\f", "\\u0041",
             "\\u00e9", "\\u65E5", "\\q", "\\u12", "\\u", "\\u12g4", "\\ud800", "\\é", "\n", "\t", "\\u00E9x"]
    w = [6, 8, 4, 4, 3, 2, 3, 3, 3, 1, 1, 1, 1, 1, 2, 1, 1, .5, .4, .3, .4, .3, .3, 1, 1, 1]
    s = "".join(rng.choices(parts, w)[0] for _ in range(rng.choice([0, 1, 1, 2, 3])))
    if rng.random() < (.6 if ONLY[0] else .03): s = word(rng) + s
    return "\"" + s + ("\"" if rng.random() < .93 else "")

def sample(rng, rules, r, depth, ind=0):
    k = r["k"]
    if depth < 0: return ""
    go = lambda x, i=ind: sample(rng, rules, x, depth - 1, i)
    if k == "ws": return rng.choice(["", " "] if r["opt"] else [" ", "  ", "\t", "\n", " \n", "\u00a0", "\u3000"])
    if k == "tag":
        t = "".join(map(chr, r["text"]))
        return ("" if rng.random() < .9 else t) if r["not"] else t
    if k in ("ua", "uaw"):
        bad = set(map(chr, r["any"]))
        if rng.random() < (.7 if ONLY[0] else .05): return word(rng, bad)
        pool = [c for c in "abéx1日,;(" + (" \n" if k == "ua" else "") if c not in bad]
        return "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    if k == "text": return rand_quoted(rng)
    if k == "num": return rand_number(rng)
    if k in ("sel", "fast"): return go(rng.choice(r["args"])) if r["args"] else ""
    if k == "seq": return "".join(go(a) for a in r["args"])
    if k == "sep":
        n = rng.choice([0, 1, 1, 2, 3])
        s = ""
        for j in range(n):
            s += go(r["rule"])
            if j < n - 1 or rng.random() < .25: s += go(r["by"])
        return s
    if k == "rep": return "".join(go(r["rule"]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    if k == "lines":
        s = ""
        j = ind + rng.choice([0, 0, 1, 2])
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            s += rng.choice(["", "", "\n", " \n", "\t\n"])
            s += (" " * (j if rng.random() < .9 else rng.randint(0, 4)) if r["indent"]
                  else rng.choice(["", " ", "\t"]))
            s += go(r["rule"], j + 1) + rng.choice(["\n", "\n", "\n", "\n\n", "\r\n", " \n", ""])
        return s
    if k == "node": return go(rules[r["idx"] - 1]) if r["idx"] else ""
    if k == "opt": return go(r["rule"]) if rng.random() < .6 else ""
    return ""

def confused(rng, s):
    """One character, or all of a kind, that look alike but are others."""
    at = [i for i, c in enumerate(s) if c in CONFUSED]
    if not at: return s
    c = s[rng.choice(at)]
    d = rng.choice(CONFUSED[c])
    if rng.random() < .5: return s.replace(c, d)
    i = rng.choice([j for j in at if s[j] == c])
    return s[:i] + d + s[i + 1:]

# Characters that are easily taken for nothing, for blanks or for the end.
STRANGE = ["\ufeff", "\u200b", "\u200c", "\u200d", "\u2060", "\u00ad", "\u0085", "\u2028", "\u2029", "\u00a0", "\u1680", "\u180e", "\u2000", "\u200a", "\u202f", "\u205f", "\u3000",
           "\0", "\x01", "\x04", "\x08", "\x0b", "\x0c", "\x1a", "\x1b", "\x1c", "\x1f", "\x7f", "\u0080", "\u009f", "\u0300", "\u0301", "\u034f", "\u061c", "\u200e", "\u202e", "\u2066", "\ufe0f",
           "\ufff9", "\ufffc", "\ufffd", "\ufffe", "\uffff", "\ufdd0", "\ue000", "\U0001fffe", "\U000e0001", "\U000e0020", "\U0010ffff", "\r", "\r\n", "\n", " ", "\t", "\ud7ff", "\u07ff", "\u0800",
           "#", "//", "\\", "\\\n", "#!", "\"", "'", "<", "&", "%", "%s", "{}", "{", "$", "`", "\u00b7", "\u2026", "\u00ff", "\u0100"]

def strange(rng, s):
    """With one of these at the start, at the end, around a break or anywhere."""
    c = rng.choice(STRANGE) if rng.random() < .75 else STRANGE[0]
    breaks = [i for i, x in enumerate(s) if x == "\n"]
    for i in rng.choice([[0], [0], [len(s)], [len(s)], [0, len(s)], [rng.randint(0, len(s))], [rng.choice(breaks) + rng.randint(0, 1)] if breaks else [0]])[::-1]:
        s = s[:i] + c * rng.choice([1, 1, 1, 2]) + s[i:]
    return s

def mutate(rng, s):
    x = rng.random()
    if x < .45: return s
    if x < .55: return confused(rng, s)
    if x < .60: return strange(rng, s)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(s))
        y = rng.random()
        if y < .4: s = s[:i] + rng.choice(CHARS) + s[i:]
        elif y < .7: s = s[:i] + s[i + 1:]
        elif y < .85: s = s[:i]
        else: s = s[:i] + rng.choice(CHARS) + s[i + 1:]
    return s

def rand_text(rng, rules, maxlen=14):
    if rng.random() < .1:
        return "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 6)))
    if maxlen > 12 and rng.random() < .12: ONLY[0] = rng.choice(FAMILIES); maxlen = max(maxlen, rng.choice([40, 100, 200]))
    t = mutate(rng, sample(rng, rules, rules[-1], 8))[:maxlen]
    ONLY[0] = None
    import cost
    return "" if cost.dear(rules, cp(t)) else t

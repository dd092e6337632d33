"""How many rules reading a document takes, roughly: recursive grammars may need
exponentially many.  This only keeps generated cases small; it decides nothing."""
from rules import children, walk
LIMIT = 15000

class TooMany(Exception): pass

def recursive(rules):
    calls = {i + 1: {x["idx"] for x in walk(r) if x["k"] == "node"} for i, r in enumerate(rules)}
    seen = {}
    def visit(i):
        if i not in calls: return False
        if seen.get(i) == 1: return True
        if seen.get(i) == 2: return False
        seen[i] = 1
        bad = any(visit(j) for j in calls[i])
        seen[i] = 2
        return bad
    return any(visit(i) for i in calls)

def steps(rules, t, r, p=0, limit=LIMIT):
    left = [limit]
    n = len(t)
    def go(r, p):
        left[0] -= 1
        if left[0] < 0: raise TooMany()
        k = r["k"]
        if k == "ws":
            q = p
            while q < n and t[q] in WS: q += 1
            return q if q > p or r["opt"] else -1
        if k == "tag":
            m = t[p:p + len(r["text"])] == r["text"]
            return (-1 if m else p) if r["not"] else (p + len(r["text"]) if m else -1)
        if k in ("ua", "uaw"):
            q = p
            while q < n and t[q] not in r["any"] and not (k == "uaw" and t[q] in WS): q += 1
            return q if q > p or r["opt"] else -1
        if k == "text":
            if p >= n or t[p] != 34: return -1
            q = p + 1
            while q < n and t[q] != 34: q += 2 if t[q] == 92 else 1
            return q + 1 if q < n else -1
        if k == "num":
            q = p
            while q < n and t[q] in NUM: q += 1
            return q if q > p else -1
        if k == "seq":
            for a in r["args"]:
                p = go(a, p)
                if p < 0: return -1
            return p
        if k in ("sel", "fast"):
            for a in r["args"]:
                q = go(a, p)
                if q >= 0: return q
            return -1
        if k == "node": return go(rules[r["idx"] - 1], p) if r["idx"] else -1
        if k == "opt": return max(go(r["rule"], p), p)
        if k == "not": return p if go(r["rule"], p) < 0 else -1
        if k in ("rep", "lines"):
            s = p
            while True:
                if k == "lines":
                    while p < n and t[p] in WS: p += 1
                    if p == n: return p
                q = go(r["rule"], p)
                if q <= p: return p if p > s or k == "lines" or r["opt"] else q
                p = q
        if k == "sep":
            s = p
            while True:
                q = go(r["rule"], p)
                if q < 0: return p if (p == s and r["opt"]) or (p > s and r["trail"]) else -1
                z = go(r["by"], q)
                if z < 0: return q
                if z == p: return z
                p = z
        return -1
    try: go(r, p)
    except (TooMany, RecursionError): return limit
    return limit - left[0]

WS = {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} | set(range(8192, 8203))
NUM = set(map(ord, "0123456789+-.eE_"))
_known = {}

def dear(rules, t, r=None, p=0):
    """Too expensive to be looked at?"""
    if len(t) > 400: return False      # large documents are made for rules that read them in a row
    key = id(rules)
    if key not in _known: _known[key] = (rules, recursive(rules))
    if not _known[key][1] and r is None: return False
    return steps(rules, t, rules[-1] if r is None else r, p) >= LIMIT

"""What is explored for each property."""
import random
from rules import walk, grammar, size
from documents import Cases
import documents as D, others as O, grammars as G, big as L

ASSUMPTIONS = [
    "The specification (spec/*.tla) says what the documentation means; it was written from the documentation and the code.",
    "TLC evaluates the specification correctly; the harness (harness/) reports what it observed.",
    "Grammars have no left recursion and no undefined references; numbers have at most 15 digits in front of the point.",
]

def shared(thorough):
    out = [("MCShared", "MCShared.cfg", {"MBT_SIZE": "1", "MBT_TELL": "all"}), ("MCShared", "MCSharedLive.cfg", {"MBT_SIZE": "1"})]
    return out + ([("MCShared", "MCShared.cfg", {"MBT_SIZE": "3"}), ("MCShared", "MCSharedLive.cfg", {"MBT_SIZE": "3"})] if thorough else [])


def machine(worlds, live=()):
    def models(thorough):
        out = [("MCMachine", "MCMachine.cfg", {"MBT_WORLD": w, "MBT_SIZE": str(a), "MBT_TELL": "calls"}) for w, a, b in worlds]
        if thorough: out += [("MCMachine", "MCMachine.cfg", {"MBT_WORLD": w, "MBT_SIZE": str(b)}) for w, a, b in worlds]
        return out + [("MCMachine", "MCMachineLive.cfg", {"MBT_WORLD": w, "MBT_SIZE": str(b if thorough else a)}) for w, a, b in live]
    return models

def given(n, live=0):
    """The step machine on grammars and documents that are generated, as many as told."""
    def models(thorough):
        k = 8 if thorough else 1
        return [("MCMachine", "MCMachine.cfg", {"MBT_WORLD": "given", "MBT_GIVEN": n * k, "MBT_TELL": "calls"})] + \
            ([("MCMachine", "MCMachineLive.cfg", {"MBT_WORLD": "given", "MBT_GIVEN": live * k})] if live else [])
    return models

def taken(cases, n, rng, longest=40):
    """That many of the cases, for the step machine: short documents, little work."""
    import cost
    cs = [c for c in cases.cases if c["op"] == "parse" and 0 < len(c["t"]) <= longest and cases.grammars[c["g"] - 1]["rules"] and sum(map(size, cases.grammars[c["g"] - 1]["rules"])) <= 40]
    out = []
    for c in rng.sample(cs, len(cs)):
        g = cases.grammars[c["g"] - 1]
        if not 12 <= cost.steps(g["rules"], c["t"], g["rules"][-1], limit=300) < 300: continue
        out.append({"rules": g["rules"], "t": c["t"], "tab": c.get("tab", 4), "align": c.get("align", True), "ind": c.get("ind", 0)})
        if len(out) == n: break
    return out

def optimizer(thorough):
    return [("MCOptimize", "MCOptimize.cfg", {"MBT_SIZE": "4" if thorough else "2"})]

def small(module, quick, deep):
    """A small world, all of it told; thorough: a larger one as well, of which only the model is checked."""
    def models(thorough):
        out = [(module, module + ".cfg", {"MBT_SIZE": str(quick), "MBT_TELL": "all"})]
        return out + ([(module, module + ".cfg", {"MBT_SIZE": str(deep)})] if thorough else [])
    return models

def both(*all_):
    return lambda thorough: [m for f in all_ for m in f(thorough)]

def lined(x): return x["k"] == "lines"

def c01(b, rng, k, rnd):
    if rnd == 0: D.small_world(3 if k == 1 else 4, 4 if k == 1 else 5, b)
    D.random_documents(rng, 500 * k, 6, b)
    D.random_documents(rng, 60 * k, 6, b, opt=1)
    O.blocks(rng, 200 * k, b); O.line_random(rng, 50 * k, b); O.quoted_random(rng, 150 * k, b); O.number_random(rng, 200 * k, b)
    D.choices(rng, 60 * k, b); D.confusable(rng, 450 * k, b)
    D.swell(rng, b, 60 * k); O.values(rng, 200 * k, b); D.oddly(rng, b, 2500 * k)
    L.loops(rng, [5000] if k == 1 else [4095, 4096, 4097, 5000, 8193, 10000], b)
    O.runs(rng, 80 * k, 6, b)
    O.loads(rng, 50 * k, b)
    L.documents(rng, [127, 256, 257, 300] if k == 1 else L.SIZES, b, per=8 * k); L.far(rng, 6 * k, b)
    L.tokens(rng, 6 * k, b); L.sets(rng, 30 * k, b); L.endless(rng, 8 * k, b); L.furthest(rng, 10 * k, b)

def c02(b, rng, k, rnd):
    D.given_up(rng, 5 * k, b)
    D.random_documents(rng, 300 * k, 6, b)
    D.rule_calls(rng, 400 * k, 8, b)
    D.trees(rng, 100 * k, b)
    D.choices(rng, 80 * k, b, levels=(1,))
    O.blocks(rng, 1500 * k, b); D.swell(rng, b, 400 * k); O.values(rng, 100 * k, b); D.oddly(rng, b, 500 * k)

def c03(b, rng, k, rnd):
    D.left_over(rng, 600 * k, b)
    if rnd == 0: D.small_world(2, 4, b)
    L.documents(rng, [255, 257], b, per=5 * k); L.far(rng, 6 * k, b); L.ends(rng, 20 * k, b)
    D.random_documents(rng, 300 * k, 6, b)
    D.random_documents(rng, 100 * k, 4, b, opt=1)
    O.runs(rng, 40 * k, 6, b); D.oddly(rng, b, 3000 * k)
    L.loops(rng, [5000], b)
    L.tokens(rng, 6 * k, b); L.endless(rng, k, b)

def c04(b, rng, k, rnd):
    D.trees(rng, 500 * k, b)
    L.documents(rng, [128, 257, 1025], b, per=6 * k); L.far(rng, 6 * k, b)
    D.random_documents(rng, 300 * k, 6, b)
    D.random_documents(rng, 100 * k, 6, b, opt=1)
    O.quoted_random(rng, 200 * k, b); O.number_random(rng, 200 * k, b); O.blocks(rng, 300 * k, b); O.line_random(rng, 60 * k, b); O.values(rng, 600 * k, b); D.oddly(rng, b, 500 * k)
    L.tokens(rng, 5 * k, b)

def c05(b, rng, k, rnd):
    D.collections_in_use(rng, 500 * k, b)
    D.into_one(rng, 250 * k, b)
    D.into_one(rng, 20 * k, b, calls=18)
    L.documents(rng, [255, 257, 300], b, per=10 * k)
    D.rule_calls(rng, 300 * k, 8, b)
    D.full(rng, [1000, 4096, 32767, 65536, 70000] if k == 1 else [127, 128, 255, 256, 1000, 1024, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 70000, 131072, 200000], b)

def c06(b, rng, k, rnd):
    D.starts(rng, 10000 if rnd == 0 else 300 * k, b); D.choices(rng, 400 * k, b); D.long_choices(rng, 120 * k, b)
    D.many_choices(rng, [2, 30, 120, 178, 254, 255, 256, 257] if k == 1 else [2, 3, 100, 127, 128, 129, 150, 178, 179, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513], b, shown=4)
    D.random_documents(rng, 250 * k, 5, b, opt=1)
    D.random_documents(rng, 120 * k, 5, b, opt=2)
    O.runs(rng, 60 * k, 6, b)
    D.swell(rng, b, 60 * k); D.oddly(rng, b, 600 * k)
    L.furthest(rng, 30 * k, b); L.sets(rng, 20 * k, b)

def c07(b, rng, k, rnd):
    for t in ("", "a"): b.parse(grammar(), t); b.parse(grammar(), t, opt=1)
    D.random_documents(rng, 500 * k, 6, b)
    D.random_documents(rng, 200 * k, 6, b, opt=1)
    D.given_up(rng, k, b)
    D.rule_calls(rng, 200 * k, 6, b)
    O.blocks(rng, 300 * k, b); O.line_random(rng, 60 * k, b); O.quoted_random(rng, 200 * k, b); O.number_random(rng, 200 * k, b)
    D.left_over(rng, 60 * k, b)
    L.documents(rng, [128, 256, 257], b, per=6 * k); L.far(rng, 10 * k, b)
    D.choices(rng, 100 * k, b)
    O.runs(rng, 100 * k, 6, b)
    D.swell(rng, b, 60 * k); D.oddly(rng, b, 800 * k)
    L.furthest(rng, 80 * k, b); L.tokens(rng, 5 * k, b)

def c08(b, rng, k, rnd):
    O.nullable(rng, 4 * k, b)
    if rnd == 0: O.deep([10, 100, 400, 2000], b); O.selves(b)
    O.garbage(rng, 2500 * k, b)
    D.random_documents(rng, 1500 * k, 6, b)
    D.random_documents(rng, 300 * k, 6, b, opt=1)
    D.given_up(rng, k, b)
    O.blocks(rng, 500 * k, b); O.line_random(rng, 100 * k, b); O.quoted_random(rng, 500 * k, b); O.number_random(rng, 500 * k, b)
    D.choices(rng, 200 * k, b); D.left_over(rng, 100 * k, b)
    O.conversions_odd(rng, 300 * k, b); O.conversions(rng, 60 * k, 6, b); O.conversions_edits(b, .3, rng)
    G.wrong(b, how=("syntax",))
    L.documents(rng, L.SIZES + [5000], b, per=8 * k); L.far(rng, 10 * k, b); L.grammar_texts(rng, [256, 300, 1025], b); L.data(rng, [257, 2000], b, json=False, cursor=False, search=False)
    if rnd == 0: L.columns(rng, b)
    G.written(rng, 100 * k, b, how=("syntax",))
    O.errstrs(rng, 150 * k, b); O.long_texts(rng, 150 * k, b); D.oddly(rng, b, 1500 * k)
    L.tokens(rng, 30 * k, b); L.endless(rng, 6 * k, b); L.sets(rng, 30 * k, b); L.furthest(rng, 30 * k, b)

def c09(b, rng, k, rnd):
    if rnd == 0: G.wrong(b); G.every_form(b, how=("syntax",) if k == 1 else ("syntax", "builtin")); O.selves(b)
    G.written(rng, 200 * k, b); G.references(rng, 100 * k, b); G.marks(rng, 600 * k, b, how=("syntax",)); G.edits(rng, 600 * k, b)
    L.grammar_texts(rng, [60, 257] if k == 1 else [60, 128, 255, 256, 257, 300], b)
    G.written(rng, 60 * k, b, misses=8, how=("syntax",), depth=2)
    O.runs(rng, 60 * k, 4, b)

def c10(b, rng, k, rnd):
    if rnd == 0: O.boot_fix(b, 2 if k == 1 else 4)
    O.boots(rng, 80 * k, b)
    L.grammar_texts(rng, [50] if k == 1 else [50, 257], b, how=("builtin",), boots=True)
    if rnd == 0: G.wrong(b, how=("builtin",))
    G.written(rng, 60 * k, b, how=("builtin",)); G.marks(rng, 900 * k, b, how=("builtin",)); G.edits(rng, 900 * k, b, how=("builtin",))

def c11(b, rng, k, rnd):
    if rnd == 0:
        O.blocks_small(4 if k == 1 else 5, (0, 1, 2, 4), b, ctxs=((4, True, 0), (4, False, 0), (4, False, 1)))
        O.tabs(b); L.columns(rng, b, far=k > 1)
    O.blocks(rng, 1500 * k, b)
    D.random_documents(rng, 250 * k, 6, b, want=lined); D.swell(rng, b, 200 * k); D.oddly(rng, b, 1200 * k)
    D.rule_calls(rng, 150 * k, 8, b)
    D.given_up(rng, k, b)

def c12(b, rng, k, rnd):
    if rnd == 0: O.line_lists(4 if k == 1 else 5, b)
    O.line_random(rng, 500 * k, b)
    L.documents(rng, [128, 257, 300], b, per=12 * k)
    O.blocks(rng, 500 * k, b)
    D.random_documents(rng, 250 * k, 6, b, want=lined); D.swell(rng, b, 200 * k); D.oddly(rng, b, 1500 * k)

def c13(b, rng, k, rnd):
    O.json_cases(rng, 1500 * k, b); O.narrow(rng, b, 400 * k)
    L.data(rng, [130, 257], b, cursor=False, search=False, convert=False)

def c14(b, rng, k, rnd):
    if rnd == 0: O.reports_small(4 if k == 1 else 5, b)
    O.reports_random(rng, 400 * k, b); O.narrow(rng, b, 500 * k); O.loads(rng, 15 * k, b)
    O.errstrs(rng, 400 * k, b)
    O.syntax_errors(rng, 200 * k, b)
    L.reports(rng, [12, 101, 1001], b)
    L.many_lines(rng, 8 * k, b)

def c15(b, rng, k, rnd):
    if rnd == 0: O.search_small(3, b)
    O.search_walks(rng, 2500 * k, b)
    L.data(rng, [127, 257, 1025], b, json=False, cursor=False, convert=False)
    L.far_data(rng, 70000, b); L.far_data(rng, 66000, b)

def c16(b, rng, k, rnd):
    if rnd == 0:
        O.cursor_small(2, b); O.cursor_small(3 if k == 1 else 5, b)
        O.conversions_small(4, b); O.conversions_edits(b)
    O.cursor_walks(rng, 2000 * k, b)
    L.data(rng, [127, 257, 1025], b, json=False, search=False)
    O.conversions(rng, 300 * k, 8, b)
    O.conversions_odd(rng, 300 * k, b)
    if rnd: O.conversions_edits(b, .3, rng)
    L.far_data(rng, 70000, b, search=False)

def c17(b, rng, k, rnd):
    if rnd == 0: O.quoted_small(4 if k == 1 else 5, b); O.number_small(4 if k == 1 else 5, b)
    O.quoted_random(rng, 3000 * k, b)
    L.far(rng, 10 * k, b); L.documents(rng, [256, 1025], b, per=8 * k)
    O.number_random(rng, 4000 * k, b); O.values(rng, 500 * k, b); D.oddly(rng, b, 1500 * k)
    L.tokens(rng, 8 * k, b)

def c18(b, rng, k, rnd):
    O.histories(rng, 200 * k, b, threads=(2, 4, 8), calls=(3, 6)); O.ordered_histories(rng, 150 * k, b)
    O.histories(rng, 60 * k, b, threads=(1,), calls=(12, 18))
    D.into_one(rng, 60 * k, b, threads=4)
    O.worn(rng, 4, 70000, b); O.worn(rng, 40 * k, 300, b); O.loads(rng, 10 * k, b)

def c18_fresh(b, rng, k, rnd):
    # The first calls of a process, all at once.
    O.histories(rng, 80 * k, b, threads=(4, 8), calls=(1, 2), compile_first=True)
    O.histories(rng, 20 * k, b, threads=(1,), calls=(2, 5))

BACK = [("back", 2, 4)]
ALLW = [("back", 2, 4), ("lines", 3, 5), ("text", 2, 4)]
LINES = [("lines", 3, 5)]

PLANS = {
 "C01": dict(cases=c01, models=both(machine(ALLW), given(1500)), about="All small grammars with all short documents over the characters that matter, random grammars with documents derived from them, near misses of these, and documents read by compiled grammar text."),
 "C02": dict(cases=c02, models=both(machine([("back", 2, 4), ("lines", 3, 5)]), given(1500)), about="Attempts that match, leave metadata or indentation behind and are then given up by a choice, option, repetition, separator or look-ahead, before several ways to go on; single rules called on a collection with leftovers behind the cursor."),
 "C03": dict(cases=c03, models=both(machine(BACK), given(1000)), about="Documents in several scripts that the rules match, with something or nothing behind them."),
 "C04": dict(cases=c04, models=both(machine(ALLW), given(1000)), about="Documents of nested named nodes around every kind of rule; values and ranges compared with the document."),
 "C05": dict(cases=c05, models=both(machine(BACK), given(1500)), about="Parses into collections that already hold metadata, several documents into one collection, single rules on collections with leftovers."),
 "C06": dict(cases=c06, models=optimizer, about="Choices of every size around the limits of a byte, alternatives starting with characters of one to four bytes, the same, or none; each document with the plain grammar's specification against the grammar optimized once and twice."),
 "C07": dict(cases=c07, models=both(machine(ALLW), given(1500)), about="Rejected documents: the reported failure against the list of all failures that the specification meets, for plain, optimized and compiled grammars."),
 "C08": dict(cases=c08, models=both(machine(ALLW, live=[("back", 1, 2), ("lines", 2, 3), ("text", 1, 2)]), given(600, 600)), about="Loops over rules that match nothing, deep nesting, garbage and near misses as grammar text, malformed metadata, random grammars and documents: every call has to return."),
 "C09": dict(cases=c09, models=small("MCMeta", 1, 2), about="Grammar texts printed from rules (so that what they mean is known) with random layout, comments, strings and escapes; every form with every flag; near misses and listed wrong texts."),
 "C10": dict(cases=c10, models=small("MCMeta", 1, 2), about="Chains of the shipped self-descriptions, each compiled by the one before; grammar texts, right and wrong, read by them."),
 "C11": dict(cases=c11, models=both(machine(LINES), given(1500), small("MCBlocks", 3, 5)), about="All indentations of a few lines, all mixtures of tabs and spaces in front of lines, random trees laid out well and badly, with every setting of tab width, alignment and starting indentation."),
 "C12": dict(cases=c12, models=both(machine(LINES), given(1500), small("MCLines", 4, 6)), about="Line lists of items, some of which span lines, over all short documents of letters, blanks and newlines; random ones."),
 "C13": dict(cases=c13, models=small("MCJson", 2, 4), about="All small tree shapes, every character below U+00A1 and others that matter in names and values, doubles of every size; what was written is read again by the JSON reader of the specification."),
 "C14": dict(cases=c14, models=small("MCReport", 3, 5), about="All places in all short texts, every kind of error, lines around the widths where they are cut; reports of rejected documents."),
 "C15": dict(cases=c15, models=small("MCSearch", 2, 3), about="Walks of the search cursor over all short sequences of items and over random ones."),
 "C16": dict(cases=c16, models=small("MCCursor", 3, 5), about="Walks of the conversion cursor; conversion of metadata of grammars, of the same with items inserted, removed, renamed or doubled, and of arbitrary sequences."),
 "C17": dict(cases=c17, models=both(machine([("text", 2, 4)]), given(1500), small("MCLiterals", 2, 3)), about="All short texts over the characters of quoted texts and of numbers, random longer ones."),
 "C18": dict(cases=c18, fresh=c18_fresh, models=shared, about="Histories of calls on several threads, at once and taking turns in a given order, calls in the middle of other calls, one collection handed from thread to thread; also as the very first calls of a process: each call against the specification of that call alone."),
}

-------------------------------- MODULE Peg --------------------------------
(***************************************************************************)
(* The documented meaning of grammars, as a function: what does rule r do  *)
(* at position p of a document?  There is no buffer, no cursor and no      *)
(* mutable state here, so an abandoned attempt cannot leave a trace and    *)
(* earlier metadata cannot matter: PegMachine, which is shaped like the    *)
(* implementation, is checked against this module, and so is the code.     *)
(*                                                                         *)
(* Failures met on the way are combined by the parameter Join, so that the *)
(* same text serves as "the complete list of failures" (PegLog) and as     *)
(* "the failure reaching furthest, newest first" (PegBest).                *)
(*                                                                         *)
(* Rules are records with field k:                                         *)
(*   ws    [opt, id]                      tag  [text, not, inv, prop, id]  *)
(*   ua    [any, opt, prop, id]           uaw  [any, opt, prop, id]        *)
(*   text  [empty, prop, id]              num  [us, prop, id]              *)
(*   sel   [args, id]                     seq  [args, id]                  *)
(*   sep   [rule, by, opt, trail, id]     rep  [rule, opt, id]             *)
(*   lines [rule, indent, id]             node [name, prop, idx, id]       *)
(*   opt   [rule, id]                     not  [rule, id]                  *)
(*   fast  [args, table, tail, id]: made by the optimizer, table maps the  *)
(*         first byte of an alternative to its number (see Optimize)       *)
(* where prop is <<>> or <<name>> and idx is 0 for an unresolved reference.*)
(*                                                                         *)
(* A context c is [t: document, o: byte offsets, refs: rules,              *)
(*                 tab: columns of a tab, align: align blocks to 1st line].*)
(***************************************************************************)
EXTENDS Literals

CONSTANTS Join(_, _),   \* combine failures: older, newer
          NoFail,       \* nothing has failed
          One(_)        \* a single failure

Off(c, p) == c.o[p + 1]

(* f: a failure is [k: kind, o: offset, e: end offset, id: rule, x: text]. *)
FailB(c, k, o, e, id, x) == [k |-> k, o |-> o, e |-> e, id |-> id, x |-> x]
Fail(c, k, p, q, id, x)  == FailB(c, k, Off(c, p), Off(c, q), id, x)

(* Items of metadata: kind, name, value, byte range.                        *)
Item(c, t, n, v, p, q) == [t |-> t, n |-> n, v |-> v, o |-> Off(c, p), e |-> Off(c, q)]

(* A property that is set produces one item, an unset one produces none.    *)
Prop(c, prop, t, v, p, q) ==
  IF prop = <<>> THEN <<>> ELSE << Item(c, t, prop[1], v, p, q) >>

Yes(q, items, f) == [on |-> FALSE, ok |-> TRUE, q |-> q, items |-> items, f |-> f]
No(f)            == [on |-> FALSE, ok |-> FALSE, q |-> 0, items |-> <<>>, f |-> f]

----------------------------------------------------------------------------
(* Rules that read characters.                                             *)

DWs(c, r, p) ==
  LET q == SkipWs(c.t, p) IN
  IF q = p /\ ~ r.opt THEN No(One(Fail(c, "ExpectedWhitespace", p, p, r.id, <<>>)))
  ELSE Yes(q, <<>>, NoFail)

DTag(c, r, p) ==
  IF Matches(c.t, p, r.text)
  THEN LET q == p + Len(r.text) IN
       IF r.not THEN No(One(Fail(c, "DidNotExpectTag", p, q, r.id, r.text)))
       ELSE Yes(q, Prop(c, r.prop, "bool", ~ r.inv, p, q), NoFail)
  ELSE IF r.not THEN Yes(p, Prop(c, r.prop, "bool", ~ r.inv, p, p), NoFail)
       ELSE No(One(Fail(c, "ExpectedTag", p, p, r.id, r.text)))

DUntil(c, r, p, q) ==
  IF q = p /\ ~ r.opt THEN No(One(Fail(c, "ExpectedSomething", p, p, r.id, <<>>)))
  ELSE Yes(q, Prop(c, r.prop, "str", Slice(c.t, p, q), p, q), NoFail)

DText(c, r, p) ==
  LET q == StringEnd(c.t, p) IN
  IF q = -1 THEN No(One(Fail(c, "ExpectedText", p, p, r.id, <<>>)))
  ELSE IF q = p + 2 /\ ~ r.empty THEN No(One(Fail(c, "EmptyTextNotAllowed", p, q, r.id, <<>>)))
  ELSE LET d == DecodeString(c.t, p, q) IN
       IF d.ok THEN Yes(q, Prop(c, r.prop, "str", d.v, p, q), NoFail)
       ELSE LET from == Off(c, d.from)
                to == IF d.to = d.from + 1 THEN from + 1 ELSE Off(c, d.to)
            IN No(One(FailB(c, d.why, from, to, r.id, <<>>)))

DNum(c, r, p) ==
  LET q == NumberEnd(c.t, p, r.us) IN
  IF q = -1 THEN No(One(Fail(c, "ExpectedNumber", p, p, r.id, <<>>)))
  ELSE LET d == NumDecode(c.t, p, q, r.us) IN
       IF d.ok
       THEN Yes(q, Prop(c, r.prop, "f64",
                        [neg |-> d.neg, mant |-> d.mant, exp |-> d.exp, huge |-> d.huge], p, q), NoFail)
       ELSE No(One(Fail(c, d.why, p, q, r.id, <<>>)))

----------------------------------------------------------------------------
(* Indentation.  A line of an indentation-sensitive block starting at p is *)
(* acceptable if its leading spaces and tabs reach the required column.    *)
(* Result: q = position after the indentation, col = column reached.       *)

(* Eat spaces and tabs until at least `need` columns are covered. *)
RECURSIVE EatIndent(_, _, _, _)
EatIndent(c, p, need, over) ==
  LET sp == FirstAt(c.t, p, LAMBDA ch : ch # SP)   \* end of the spaces
      q  == IF sp - p < need THEN sp ELSE p + need
  IN IF need <= 0 THEN [ok |-> TRUE, q |-> p, over |-> over]
     ELSE IF q - p = need THEN [ok |-> TRUE, q |-> q, over |-> 0]
     ELSE IF q < Len(c.t) /\ c.t[q + 1] = TAB
          THEN LET left == need - (q - p)
               IN IF left <= c.tab THEN [ok |-> TRUE, q |-> q + 1, over |-> c.tab - left]
                  ELSE EatIndent(c, q + 1, left - c.tab, over)
     ELSE [ok |-> FALSE, q |-> q, over |-> 0]

(* All further spaces and tabs, with the columns they add. *)
MoreIndent(c, p) ==
  LET q == FirstAt(c.t, p, LAMBDA ch : ch # SP /\ ch # TAB)
  IN [q |-> q, cols |-> FoldLeft(LAMBDA n, ch : n + (IF ch = TAB THEN c.tab ELSE 1), 0, Slice(c.t, p, q))]

(* ind: column of the block so far; first: no line read yet.               *)
LineIndent(c, p, ind, first) ==
  LET a == EatIndent(c, p, ind, 0) IN
  IF ~ a.ok THEN [ok |-> FALSE, q |-> p, ind |-> ind]
  ELSE IF first /\ c.align
       THEN LET m == MoreIndent(c, a.q)
            IN [ok |-> TRUE, q |-> m.q, ind |-> ind + a.over + m.cols]
       ELSE [ok |-> /\ ~ (a.q < Len(c.t) /\ c.t[a.q + 1] = SP)
                    /\ c.align => /\ a.over = 0
                                  /\ ~ (a.q < Len(c.t) /\ c.t[a.q + 1] = TAB),
             q |-> a.q, ind |-> ind]

----------------------------------------------------------------------------
(* Where the next line with something on it starts: from p, skip lines that *)
(* are blank.  Result: at = its position (Len(t) if only white space is     *)
(* left), crossed = a line break was crossed, none = nothing is left.       *)
NextLine(c, p, crossed) ==
  LET at == SkipWs(c.t, p)
      nl == LastIn(c.t, p, at, LAMBDA ch : ch = NL)
  IN [none |-> at = Len(c.t), crossed |-> crossed \/ nl # 0,
      at |-> IF at = Len(c.t) THEN at ELSE IF nl = 0 THEN p ELSE nl]

(* Does the text read so far (p..q) end with a line break, apart from other *)
(* white space?                                                             *)
EndsWithNewline(c, p, q) ==
  LET i == LastIn(c.t, p, q, LAMBDA ch : ch = NL \/ ~ IsWs(ch)) IN i # 0 /\ c.t[i] = NL

----------------------------------------------------------------------------
(* The meaning of a rule.  ind is the indentation in force.                *)

RECURSIVE D(_, _, _, _)

(* Loops carry their state in such a result, and stop at the first that is *)
(* not to be continued (on).                                               *)
Go(q, items, f) == [on |-> TRUE, ok |-> TRUE, q |-> q, items |-> items, f |-> f]

(* One after the other. *)
DSeq(c, args, p, ind) ==
  LET Part(s, r) == IF ~ s.on THEN s
                    ELSE LET b == D(c, r, s.q, ind) IN
                         IF b.ok THEN Go(b.q, s.items \o b.items, Join(s.f, b.f)) ELSE No(Join(s.f, b.f))
  IN FoldLeft(Part, Go(p, <<>>, NoFail), args)

(* The first alternative that matches. *)
DSel(c, r, p, ind) ==
  LET Alternative(s, x) == IF ~ s.on THEN s
                           ELSE LET b == D(c, x, p, ind) IN
                                IF b.ok THEN Yes(b.q, b.items, Join(s.f, b.f)) ELSE [No(Join(s.f, b.f)) EXCEPT !.on = TRUE]
  IN IF r.args = <<>> THEN No(One(Fail(c, "InvalidRule", p, p, r.id, <<>>)))
     ELSE FoldLeft(Alternative, Go(p, <<>>, NoFail), r.args)

(* The alternative chosen by the next byte, then the rest if there is one.  *)
DFast(c, r, p, ind) ==
  LET byte == IF p < Len(c.t) THEN FirstByte(c.t[p + 1]) ELSE -1
      none == One(Fail(c, "ExpectedSomething", p, p, r.id, <<>>))
  IN IF byte \in DOMAIN r.table
     THEN LET b == D(c, r.args[r.table[byte]], p, ind) IN
          IF b.ok \/ ~ r.tail THEN b
          ELSE LET z == D(c, r.args[Len(r.args)], p, ind) IN
               IF z.ok THEN Yes(z.q, z.items, Join(b.f, z.f)) ELSE No(Join(b.f, z.f))
     ELSE IF r.tail THEN D(c, r.args[Len(r.args)], p, ind)
     ELSE No(none)

(* Again and again, until the rule fails or reads nothing. *)
DRep(c, r, p, ind) ==
  LET Again(s) ==
        LET b == D(c, r.rule, s.q, ind) IN
        IF ~ b.ok THEN IF s.q = p /\ ~ r.opt THEN No(Join(s.f, b.f)) ELSE Yes(s.q, s.items, Join(s.f, b.f))
        ELSE IF b.q = s.q THEN Yes(s.q, s.items \o b.items, Join(s.f, b.f))
        ELSE Go(b.q, s.items \o b.items, Join(s.f, b.f))
  IN Loop(Again, Go(p, <<>>, NoFail), Len(c.t) - p + 1)

(* rule by rule by rule ... *)
DSep(c, r, p, ind) ==
  LET Again(s) ==
        LET b == D(c, r.rule, s.q, ind)
            first == s.q = p
            f1 == Join(s.f, b.f)
        IN IF ~ b.ok
           THEN IF (first /\ ~ r.opt) \/ (~ first /\ ~ r.trail) THEN No(f1) ELSE Yes(s.q, s.items, f1)
           ELSE LET i1 == s.items \o b.items
                    y == D(c, r.by, b.q, ind)
                    f2 == Join(f1, y.f)
                IN IF ~ y.ok THEN Yes(b.q, i1, f2)
                   ELSE IF y.q = s.q THEN Yes(y.q, i1 \o y.items, f2)
                   ELSE Go(y.q, i1 \o y.items, f2)
  IN Loop(Again, Go(p, <<>>, NoFail), Len(c.t) - p + 1)

(* Items on lines of their own.  nl: a new item may start here without     *)
(* crossing a line break; ind: column of the block so far.                 *)
DLines(c, r, p, outer) ==
  LET Again(s) ==
        LET l == NextLine(c, s.q, s.nl) IN
        IF l.none THEN Yes(l.at, s.items, s.f)
        ELSE IF ~ l.crossed
             THEN No(Join(s.f, One(Fail(c, "ExpectedNewLine", l.at, l.at, r.id, <<>>))))
        ELSE LET d == IF r.indent THEN LineIndent(c, l.at, s.ind, s.first)
                      ELSE [ok |-> TRUE, q |-> l.at, ind |-> s.ind]
             IN IF ~ d.ok THEN Yes(l.at, s.items, s.f)
                ELSE LET b == D(c, r.rule, d.q, IF r.indent THEN d.ind + 1 ELSE s.ind)
                         f1 == Join(s.f, b.f)
                     IN IF ~ b.ok THEN Yes(l.at, s.items, f1)
                        ELSE IF b.q = l.at THEN Yes(l.at, s.items \o b.items, f1)
                        ELSE [nl |-> EndsWithNewline(c, l.at, b.q), ind |-> d.ind, first |-> FALSE]
                             @@ Go(b.q, s.items \o b.items, f1)
  IN Loop(Again, [nl |-> TRUE, ind |-> outer, first |-> TRUE] @@ Go(p, <<>>, NoFail), Len(c.t) - p + 1)

D(c, r, p, ind) ==
  CASE r.k = "seq"  -> DSeq(c, r.args, p, ind)
    [] r.k = "tag"  -> DTag(c, r, p)
    [] r.k = "sel"  -> DSel(c, r, p, ind)
    [] r.k = "ws"   -> DWs(c, r, p)
    [] r.k = "uaw"  -> DUntil(c, r, p, UntilAnyOrWs(c.t, p, r.any))
    [] r.k = "ua"   -> DUntil(c, r, p, UntilAny(c.t, p, r.any))
    [] r.k = "node" ->
         IF r.idx = 0 THEN No(One(Fail(c, "InvalidRule", p, p, r.id, <<>>)))
         ELSE LET b == D(c, c.refs[r.idx], p, ind) IN
              IF ~ b.ok THEN b
              ELSE IF r.prop = <<>> THEN b
              ELSE Yes(b.q, << Item(c, "start", r.prop[1], <<>>, p, p) >> \o b.items
                            \o << Item(c, "end", r.prop[1], <<>>, p, b.q) >>, b.f)
    [] r.k = "opt"  -> LET b == D(c, r.rule, p, ind) IN
                       IF b.ok THEN b ELSE Yes(p, <<>>, b.f)
    [] r.k = "not"  -> LET b == D(c, r.rule, p, ind) IN
                       IF b.ok THEN No(One(Fail(c, "DidNotExpectTag", p, b.q, r.id, Slice(c.t, p, b.q))))
                       ELSE Yes(p, <<>>, NoFail)
    [] r.k = "rep"  -> DRep(c, r, p, ind)
    [] r.k = "sep"  -> DSep(c, r, p, ind)
    [] r.k = "lines"-> DLines(c, r, p, ind)
    [] r.k = "text" -> DText(c, r, p)
    [] r.k = "num"  -> DNum(c, r, p)
    [] r.k = "fast" -> DFast(c, r, p, ind)

----------------------------------------------------------------------------
(* A whole document: the last rule of the grammar must read all of it.      *)
Ctx(refs, t, tab, align) ==
  [t |-> t, o |-> Offs(t), refs |-> refs, tab |-> tab, align |-> align]

ParseIn(c, ind) ==
  IF c.refs = <<>> THEN No(One(FailB(c, "NoRules", 0, 0, 0, <<>>)))
  ELSE LET b == D(c, c.refs[Len(c.refs)], 0, ind) IN
       IF ~ b.ok THEN b
       ELSE IF b.q < Len(c.t)
            THEN No(Join(b.f, One(Fail(c, "ExpectedEnd", b.q, b.q, 0, <<>>))))
            ELSE b

Parse(refs, t) == ParseIn(Ctx(refs, t, 4, TRUE), 0)
=============================================================================

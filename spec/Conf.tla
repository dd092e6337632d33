-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance of the implementation: every case was run on the real code, *)
(* which left an observation; the specification says what had to be        *)
(* observed.  Every case is one state; Lanes independent chains of states  *)
(* let TLC's workers share the work.                                       *)
(*                                                                         *)
(* Which of the differences count is chosen by the property being checked. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils, Meta

B == INSTANCE PegBest
L == INSTANCE PegLog
O == INSTANCE Optimize
CC == INSTANCE ConvertCursor
SC == INSTANCE SearchCursor
JT == INSTANCE JsonText
RP == INSTANCE Report

Property == IOEnv.MBT_PROPERTY
Grammars == ndJsonDeserialize(IOEnv.MBT_GRAMMARS)
Cases    == ndJsonDeserialize(IOEnv.MBT_CASES)
Lanes    == 64

Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

Ctx(c) == B!Ctx(Grammars[c.g].rules, c.t, Get(c, "tab", 4), Get(c, "align", TRUE))

Dead(obs) == obs.r \notin {"ok", "err"}

(* Furthest failures among all that were met. *)
Furthest(log) ==
  LET far == FoldLeft(LAMBDA m, f : IF f.e > m THEN f.e ELSE m, 0, log)
  IN {i \in 1..Len(log) : log[i].e = far}

Newest(s) == Max(s)

Ok1(fs, obs) ==   \* problems with the reported error, given all failures
  LET far == Furthest(fs)
      isWhat == \E i \in far : fs[i] = obs.err
  IN If(obs.err.e # fs[Newest(far)].e, "not the deepest failure")
     \o If(obs.err.o # fs[Newest(far)].o, "wrong place")
     \o If(~ isWhat, "not a failure of a rule there")
     \o If(isWhat /\ fs[Newest(far)] # obs.err, "not the newest of the deepest failures")

(***************************************************************************)
(* Whole documents.                                                        *)
(***************************************************************************)
RECURSIVE ChoiceIds(_)
ChoiceIds(r) ==
  CASE r.k = "sel" -> {r.id} \cup UNION {ChoiceIds(r.args[j]) : j \in 1..Len(r.args)}
    [] r.k = "seq" -> UNION {ChoiceIds(r.args[j]) : j \in 1..Len(r.args)}
    [] r.k = "sep" -> ChoiceIds(r.rule) \cup ChoiceIds(r.by)
    [] r.k \in {"rep", "lines", "opt", "not"} -> ChoiceIds(r.rule)
    [] OTHER -> {}

(* In an optimized grammar choices are looked up, so that fewer rules are   *)
(* tried: the error is one of those that the plain grammar meets there, or  *)
(* says that none of the alternatives of a choice can start there.          *)
OkFast(refs, fs, obs) ==
  LET far == Furthest(fs)
      last == fs[Newest(far)]
      choice == /\ obs.err.k = "ExpectedSomething" /\ obs.err.x = <<>>
                /\ <<obs.err.o, obs.err.e>> = <<last.o, last.e>>
                /\ obs.err.id \in UNION {ChoiceIds(refs[j]) : j \in 1..Len(refs)}
  IN If(~ choice /\ ~ \E j \in far : fs[j] = obs.err, "not a failure of a rule there")

ParseProblemsIn(c, ctx) ==
  LET obs == c.obs
      ind == Get(c, "ind", 0)
      plain == Get(c, "opt", 0) = 0
  IN
  IF Dead(obs) THEN << obs.r >>
  ELSE
    LET e == B!ParseIn(ctx, ind)
        acc == (obs.r = "ok") = e.ok
    IN
    IF e.ok /\ Silent(e.items) THEN <<>>
    ELSE
      If(~ acc /\ e.ok, "rejected, but the rules match")
      \o If(~ acc /\ ~ e.ok, "accepted, but the rules do not match")
      \o If(acc /\ e.ok /\ obs.items # CanonAll(e.items), "other metadata than the rules describe")
      \o If(~ obs.pre, "metadata of the caller changed")
      \o If(obs.r = "ok" /\ ~ WellFormed(obs.items, ctx.o), "metadata is not a tree over the document")
      \o If(acc /\ ~ e.ok /\ (obs.err.o # e.f.o \/ obs.err.e # e.f.e), "failure reported at another place")
      \o If(acc /\ ~ e.ok /\ plain /\ obs.err # e.f, "another failure reported")
      \o (IF Property \in {"C07", "ALL"} /\ acc /\ ~ e.ok
          THEN LET l == L!ParseIn(ctx, ind) IN
               IF Assert(l.ok = e.ok /\ l.f # <<>> /\ l.f[Newest(Furthest(l.f))] = e.f, "PegBest and PegLog disagree")
               THEN IF plain THEN Ok1(l.f, obs) ELSE OkFast(ctx.refs, l.f, obs) ELSE <<>>
          ELSE <<>>)

ParseProblems(c) == ParseProblemsIn(c, Ctx(c))


(***************************************************************************)
(* A rule called in the middle of a document, on a collection that already *)
(* holds metadata and, behind the cursor, leftovers of abandoned attempts. *)
(***************************************************************************)
RuleProblems(c) ==
  LET obs == c.obs
      ctx == Ctx(c)
      ind == Get(c, "ind", 0)
      plain == Get(c, "opt", 0) = 0
  IN
  IF Dead(obs) THEN << obs.r >>
  ELSE
    LET e == B!D(ctx, c.rule, c.at, ind)
        acc == (obs.r = "ok") = e.ok
    IN
    IF e.ok /\ Silent(e.items) THEN <<>>
    ELSE
      If(~ acc, "matches where it should not, or the other way around")
      \o If(acc /\ e.ok /\ (obs.o # ctx.o[c.at + 1] \/ obs.e # ctx.o[e.q + 1]), "read another part of the document")
      \o If(acc /\ e.ok /\ obs.items # CanonAll(e.items), "other metadata than the rule describes")
      \o If(~ obs.pre, "metadata in front of the cursor changed")
      \o If(obs.ind # ind, "indentation changed")
      \o If(acc /\ ~ e.ok /\ (obs.err.o # e.f.o \/ obs.err.e # e.f.e), "failure reported at another place")
      \o If(acc /\ plain /\ obs.err # e.f, "another failure reported")

(***************************************************************************)
(* Grammar text: what users call, and the two steps behind it.             *)
(***************************************************************************)
(* Grammars printed from rules have to come to these rules: this checks the *)
(* specification itself.                                                    *)
AsMade(c, e) ==
  "want" \notin DOMAIN c
  \/ Assert(e.ok /\ e.rules = c.want.rules /\ e.names = c.want.names, <<"the specification reads a grammar wrongly", c.t>>)

SyntaxProblems(c) ==
  LET obs == c.obs
      e == Compiled(c.t)
  IN IF ~ AsMade(c, e) THEN <<>>
     ELSE IF Dead(obs) THEN << obs.r >>
        ELSE IF obs.r = "ok" /\ ~ e.ok THEN << "compiled, but it is not a grammar" >>
     ELSE IF obs.r = "err" /\ e.ok THEN << "rejected, but it is a grammar" >>
     ELSE If(e.ok /\ O!FlatRules(obs.rules) # e.rules, "other rules than written")
          \o If(e.ok /\ obs.names # e.names, "other node names than written")
          \o If(~ e.ok /\ <<obs.err.o, obs.err.e>> # <<e.o, e.e>>, "grammar rejected at another place")

(* The built-in rules number their parts only roughly in order, so that the *)
(* failing rule is compared up to the node it is in.                        *)
SameFailure(f, err) == <<f.k, f.o, f.e, f.x, f.id \div 1000>> = <<err.k, err.o, err.e, err.x, err.id \div 1000>>

BuiltinProblems(c) ==
  LET obs == c.obs
      p == MetaRead(c.t)
      d == CanonAll(p.items)
      e == Converted(d)
  IN IF obs.r \notin {"ok", "err", "rej"} THEN << obs.r >>
     ELSE IF p.ok /\ Silent(p.items) THEN <<>>
     ELSE IF (obs.r = "rej") # ~ p.ok THEN << "read by the built-in rules, or not, against the meta language" >>
     ELSE IF ~ p.ok THEN If(~ SameFailure(p.f, obs.err), "grammar text rejected for another reason")
     ELSE IF (obs.r = "ok") # e.ok THEN << "converted, or not, against the meta language" >>
     ELSE IF ~ e.ok THEN <<>>
     ELSE If(obs.items # d, "grammar text read differently")
          \o If(obs.rules # e.rules, "other rules than written")
          \o If(obs.names # e.names, "other node names than written")
          \o If(obs.ignored # e.ignored, "other parts ignored")

(***************************************************************************)
(* Grammar text compiled, and documents read with the result.              *)
(***************************************************************************)
RunProblems(c) ==
  LET obs == c.obs
      e == Compiled(c.gt)
      Doc(j) == ParseProblemsIn([opt |-> 1, t |-> c.docs[j], obs |-> obs.docs[j]], B!Ctx(e.rules, c.docs[j], 4, TRUE))
  IN IF ~ AsMade([c EXCEPT !.op = "meta"] @@ [t |-> c.gt], e) THEN <<>>
     ELSE IF Dead(obs) THEN << obs.r >>
        ELSE IF (obs.r = "ok") # e.ok THEN << "compiled, or not, against the meta language" >>
     ELSE IF ~ e.ok THEN <<>>
     ELSE FoldLeft(LAMBDA acc, j : IF acc = <<>> THEN Doc(j) ELSE acc, <<>>, [j \in 1..Len(c.docs) |-> j])

(* The same from files: data or nothing. *)
LoadProblems(c) ==
  LET obs == c.obs
      e == Compiled(c.gt)
      p == B!Parse(e.rules, c.t)
      ok == e.ok /\ p.ok
  IN IF obs.r \notin {"ok", "err"} THEN << obs.r >>
     ELSE IF ok /\ Silent(p.items) THEN <<>>
     ELSE IF (obs.r = "ok") # ok THEN << "loaded, or not, against the rules" >>
     ELSE If(ok /\ obs.items # CanonAll(p.items), "other data loaded than the rules describe")
          \o If(ok /\ obs.rep # <<>>, "report of a success")
          \o If(~ ok /\ obs.of # (IF e.ok THEN "t" ELSE "gt"), "report about the other text")
          \o If(~ ok /\ obs.err.k # "InvalidRule" /\ obs.rep # RP!ReportErr(IF obs.of = "gt" THEN c.gt ELSE c.t, obs.err), "another report")

(***************************************************************************)
(* Reading with a compiled grammar: one that describes the meta language   *)
(* (same), or whatever a chain of grammar texts, each read by the one      *)
(* before, comes to.                                                       *)
(***************************************************************************)
ChainRules(texts) ==
  FoldLeft(LAMBDA g, t : LET p == B!Parse(g, t) IN
                         IF g = <<>> \/ ~ p.ok THEN <<>> ELSE Converted(CanonAll(p.items)).rules,
           MetaRules, texts)

(* Rules without their numbers. *)
RECURSIVE NoIds(_)
NoIds(r) ==
  CASE r.k \in {"sel", "seq"} -> [r EXCEPT !.id = 0, !.args = [j \in 1..Len(r.args) |-> NoIds(r.args[j])]]
    [] r.k = "sep" -> [r EXCEPT !.id = 0, !.rule = NoIds(r.rule), !.by = NoIds(r.by)]
    [] r.k \in {"rep", "lines", "opt", "not"} -> [r EXCEPT !.id = 0, !.rule = NoIds(r.rule)]
    [] OTHER -> [r EXCEPT !.id = 0]
AllNoIds(rules) == [j \in 1..Len(rules) |-> NoIds(rules[j])]

(* The rules at the end of a chain: those that were written; and those of   *)
(* the meta language itself if the chain describes that (same), or those    *)
(* that it describes again (fixed: the last two texts are the same).        *)
FixProblems(c) ==
  LET obs == c.obs
      e == ChainRules(c.texts)
      n == Len(c.texts)
  IN IF obs.r = "chain" THEN << "a shipped grammar is not read any more" >>
     ELSE IF Dead(obs) THEN << obs.r >>
     ELSE If(obs.rules # e, "other rules than written")
          \o If(c.same /\ AllNoIds(e) # AllNoIds(MetaRules), "does not describe the meta language")
          \o If(c.same /\ AllNoIds(obs.rules) # AllNoIds(MetaRules), "the built-in rules are other rules")
          \o If(Get(c, "fixed", FALSE) /\ e # ChainRules(SubSeq(c.texts, 1, n - 1)), "does not reproduce itself")
          \o If(Get(c, "fixed", FALSE) /\ obs.rules # obs.before, "does not reproduce itself")

BootProblems(c) ==
  LET obs == c.obs
      g == IF c.same THEN MetaRules ELSE ChainRules(c.texts)
      p == B!Parse(g, c.t)
  IN IF obs.r = "chain" THEN << "a shipped grammar is not read any more" >>
     ELSE IF Dead(obs) THEN << obs.r >>
     ELSE IF g = <<>> THEN << "a shipped grammar should not be read" >>
     ELSE IF (obs.r = "ok") # p.ok THEN << "read, or not, against the self-description" >>
     ELSE IF ~ p.ok THEN If(<<p.f.o, p.f.e>> # <<obs.err.o, obs.err.e>>, "grammar text rejected at another place")
     ELSE IF Silent(p.items) THEN <<>>
     ELSE If(obs.items # CanonAll(p.items), "grammar text read differently")

(***************************************************************************)
(* Metadata to rules.                                                      *)
(***************************************************************************)
ConvertProblems(c) ==
  LET obs == c.obs
      e == Converted(c.data)
  IN IF Dead(obs) THEN << obs.r >>
     ELSE IF (obs.r = "ok") # e.ok THEN << "converted, or not, against the items" >>
     ELSE IF ~ e.ok THEN <<>>
     ELSE If(obs.rules # e.rules, "other rules than the items say")
          \o If(obs.names # e.names, "other names than the items say")
          \o If(obs.ignored # e.ignored, "other items listed as ignored")

RefsProblems(c) ==
  LET obs == c.obs
      g == c.grammar
  IN IF Dead(obs) THEN << obs.r >>
     ELSE If(obs.rules # ResolveAll(g.rules, 1, g.names), "other nodes referred to")
          \o If(obs.names # g.names, "other names than before")

(***************************************************************************)
(* Walks of the two cursors.                                               *)
(***************************************************************************)
(* Positions after each step of a walk, from 0. *)
CursorStops(c) ==
  FoldLeft(LAMBDA acc, st : Append(acc, acc[Len(acc)] + CC!Do(c.data, acc[Len(acc)], st[1], IF Len(st) > 1 THEN st[2] ELSE <<>>).n),
           <<0>>, c.script)

CursorProblems(c) ==
  LET obs == c.obs
      d == c.data
      at == CursorStops(c)
      Step(i) ==
        LET st == c.script[i]
            e == CC!Do(d, at[i], st[1], IF Len(st) > 1 THEN st[2] ELSE <<>>)
            o == obs.steps[i]
        IN If(o.ok # e.ok, "item read, or not, against its kind and name")
           \o If(o.ok /\ e.ok /\ o.v # e.v, "other value than the item's")
           \o If(o.ok /\ e.ok /\ o.range # CC!Count(at[i], at[i + 1]), "other number of items consumed")
           \o If(o.left # Len(d) - at[i + 1], "other number of items left")
           \o If(o.since # [k \in 1..i |-> <<CC!Count(at[k], at[i + 1]), CC!Source(d, at[k], at[i + 1])>>],
                 "other range consumed since an earlier point")
  IN IF Dead(obs) THEN << obs.r >>
     ELSE FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN Step(i) ELSE acc, <<>>, [i \in 1..Len(c.script) |-> i])

SearchProblems(c) ==
  LET obs == c.obs
      d == c.data
      Step(cur, i) ==
        LET st == c.script[i]
            e == SC!Do(d, cur, st[1], st[2], IF Len(st) > 2 THEN st[3] ELSE <<>>)
            o == obs.steps[i]
            failed == e.inner # <<>> /\ "fail" \in DOMAIN c /\ i \in ToSet(c.fail)
            enters == ~ failed /\ e.inner # <<>> /\ Len(st) = IF st[1] \in {"for_node", "for_end"} THEN 3 ELSE 4
            bad == IF failed THEN If(o.ok \/ o.err # SC!Mine, "error of what was to be done not passed on")
                                  \o If(o.after # e.next, "cursor moved, or not, against the step")
                   ELSE
                   If(o.ok # e.ok, "found, or not, against kind and name")
                   \o If(~ o.ok /\ o.err.k # "Conversion", "miss reported as another error")
                   \o If(o.ok /\ e.ok /\ o.v # e.v, "other value than the item's")
                   \o If(~ o.ok /\ ~ e.ok /\ <<o.err.o, o.err.e>> # e.err, "miss reported at another place")
                   \o If(o.ok /\ e.ok /\ o.inner # e.inner, "cursor handed over stands elsewhere")
                   \o If(o.after # e.next, "cursor moved, or not, against the step")
        IN [cur |-> IF enters THEN e.inner ELSE e.next, bad |-> bad]
      Walk == FoldLeft(LAMBDA acc, i : IF acc.bad # <<>> THEN acc ELSE Step(acc.cur, i),
                       [cur |-> SC!Begin, bad |-> <<>>], [i \in 1..Len(c.script) |-> i])
  IN IF Dead(obs) THEN << obs.r >> ELSE Walk.bad

(***************************************************************************)
(* Texts written.                                                          *)
(***************************************************************************)
JsonItem(x) == [t |-> x.t, n |-> x.n, v |-> IF x.t = "f64" THEN x.d ELSE x.v]

(* A writer that takes only so many bytes gets the start of the text, and   *)
(* the call says whether it got everything.                                 *)
PartProblems(c, out) ==
  LET part == c.obs.part
      all == Encoded(out)
  IN IF "room" \notin DOMAIN c THEN <<>>
     ELSE If(part.all # (Len(all) <= c.room), "writing failed, or not, against the writer")
          \o If(part.bytes # SubSeq(all, 1, IF Len(all) <= c.room THEN Len(all) ELSE Len(part.bytes)), "not the start of the text")

JsonProblems(c) ==
  LET obs == c.obs
      r == JT!JsonRead(obs.out)
  IN IF Dead(obs) THEN << obs.r >>
     ELSE IF ~ r.ok THEN << "not valid JSON" >>
     ELSE If(~ JT!SameTree([i \in 1..Len(c.data) |-> JsonItem(c.data[i])], r.v), "JSON of another tree")
          \o PartProblems(c, obs.out)

ReportProblems(c) ==
  LET obs == c.obs
      want == IF c.how = "msg" THEN RP!ReportMsg(c.t, c.msg, c.err.o, c.err.e) ELSE RP!ReportErr(c.t, c.err)
  IN IF Dead(obs) THEN << obs.r >> ELSE If(obs.out # want, "another report") \o PartProblems(c, obs.out)

(* The error of a parse, as text. *)
ErrorTextProblems(c) ==
  LET obs == c.obs IN
  IF Dead(obs) THEN << obs.r >>
  ELSE IF obs.r = "ok" THEN If(obs.rep # <<>>, "report of a success")
  ELSE IF obs.err.k = "InvalidRule" THEN <<>>
  ELSE If(obs.rep # RP!ReportErr(c.t, obs.err), "another report")

(***************************************************************************)
(* Histories: every call gives what it gives alone.                        *)
(***************************************************************************)
RECURSIVE CallProblems(_, _, _)
CallProblems(c, st, obs) ==
  IF st.do = "run" THEN RunProblems([op |-> "run", gt |-> st.gt, docs |-> st.docs, obs |-> obs])
  ELSE IF st.do = "compile" THEN SyntaxProblems([op |-> "meta", t |-> st.t, obs |-> obs])
  ELSE IF st.do = "case" THEN
    LET x == [obs |-> obs] @@ st.case IN
    (CASE x.op = "json"    -> JsonProblems(x)
       [] x.op = "report"  -> ReportProblems(x)
       [] x.op = "search"  -> SearchProblems(x)
       [] x.op = "cursor"  -> CursorProblems(x)
       [] x.op = "convert" -> ConvertProblems(x)
       [] x.op = "meta"    -> IF x.with = "syntax" THEN SyntaxProblems(x) ELSE BuiltinProblems(x))
    \o IF Dead(obs) \/ "within" \notin DOMAIN st THEN <<>>
       ELSE FoldLeft(LAMBDA acc, i : acc \o CallProblems(c, st.within[i], obs.within[i]), <<>>, [i \in 1..Len(st.within) |-> i])
  ELSE ParseProblems([op |-> "parse", g |-> c.gs[st.g][1], opt |-> c.gs[st.g][2], t |-> st.t,
                      tab |-> Get(st, "tab", 4), align |-> Get(st, "align", TRUE), ind |-> Get(st, "ind", 0), obs |-> obs])

HistoryProblems(c) ==
  LET obs == c.obs
      calls == {<<i, j>> \in (1..Len(c.threads)) \X (1..20) : j <= Len(c.threads[i])}
      bad == {x \in calls : CallProblems(c, c.threads[x[1]][x[2]], obs.threads[x[1]][x[2]]) # <<>>}
  IN IF Dead(obs) THEN << obs.r >>
     ELSE If(~ obs.same, "a grammar was changed by using it")
          \o If(bad # {}, "a call gives another result than alone")

(* Every call has to return, with whatever. *)
Returned(obs) == If(obs.r \notin {"ok", "err", "rej", "chain"}, obs.r)

Problems(c) ==
  CASE Property = "C08" -> Returned(c.obs)
    [] c.op = "parse"   -> ParseProblems(c) \o (IF Get(c, "errstr", FALSE) THEN ErrorTextProblems(c) ELSE <<>>)
    [] c.op = "rule"    -> RuleProblems(c)
    [] c.op = "meta"    -> (IF c.with = "syntax" THEN SyntaxProblems(c) ELSE BuiltinProblems(c))
                           \o (IF Get(c, "errstr", FALSE) THEN ErrorTextProblems(c) ELSE <<>>)
    [] c.op = "load"    -> LoadProblems(c)
    [] c.op = "boot"    -> BootProblems(c)
    [] c.op = "fix"     -> FixProblems(c)
    [] c.op = "run"     -> RunProblems(c)
    [] c.op = "convert" -> ConvertProblems(c)
    [] c.op = "refs"    -> RefsProblems(c)
    [] c.op = "cursor"  -> CursorProblems(c)
    [] c.op = "search"  -> SearchProblems(c)
    [] c.op = "json"    -> JsonProblems(c)
    [] c.op = "report"  -> ReportProblems(c)
    [] c.op = "history" -> HistoryProblems(c)

(* Which problems of documents concern the property being checked?  What   *)
(* the other operations find always does: they are run for it.             *)
ParseKinds ==
  LET values == {"rejected, but the rules match", "accepted, but the rules do not match",
                 "other metadata than the rules describe",
                 "matches where it should not, or the other way around",
                 "read another part of the document", "other metadata than the rule describes"}
      places == {"failure reported at another place"}
      errors == places \cup {"another failure reported"}
      kept == {"metadata of the caller changed", "metadata in front of the cursor changed"}
      tree == {"metadata is not a tree over the document"}
      chosen == {"not the deepest failure", "wrong place", "not a failure of a rule there",
                 "not the newest of the deepest failures"}
      indent == {"indentation changed"}
      all == values \cup errors \cup kept \cup tree \cup chosen \cup indent
  IN [all |-> all,
      mine |-> CASE Property = "C01" -> values
                 [] Property = "C02" -> values \cup kept \cup indent
                 [] Property = "C03" -> {"rejected, but the rules match", "accepted, but the rules do not match"}
                 [] Property = "C04" -> values \cup tree
                 [] Property = "C05" -> values \cup kept
                 [] Property = "C06" -> values \cup places
                 [] Property = "C07" -> errors \cup chosen
                 [] Property \in {"C08", "C14"} -> {}
                 [] Property = "C11" -> values \cup places \cup indent
                 [] Property \in {"C12", "C17"} -> values \cup errors
                 [] OTHER -> all]

Kinds == ParseKinds
Matter(ps) == \E i \in 1..Len(ps) : ps[i] \in Kinds.all => ps[i] \in Kinds.mine

Expected(c) ==
  CASE c.op = "parse" -> B!ParseIn(Ctx(c), Get(c, "ind", 0))
    [] c.op = "rule" -> B!D(Ctx(c), c.rule, c.at, Get(c, "ind", 0))
    [] c.op = "meta" -> Compiled(c.t)
    [] c.op = "convert" -> Converted(c.data)
    [] c.op = "report" -> IF c.how = "msg" THEN RP!ReportMsg(c.t, c.msg, c.err.o, c.err.e) ELSE RP!ReportErr(c.t, c.err)
    [] c.op = "json" -> JT!JsonRead(c.obs.out)
    [] OTHER -> "see the specification"

(* Its name must not be that of a bound identifier anywhere: TLC would not *)
(* keep the values of constant definitions using it.                       *)
(* Below 0 are the lanes, so that no case is looked at in an initial state: *)
(* those are the work of one thread.                                        *)
VARIABLE case_no
Init == case_no \in {0 - n : n \in 1..(IF Len(Cases) < Lanes THEN Len(Cases) ELSE Lanes)}
Next == \/ case_no < 0 /\ case_no' = 0 - case_no
        \/ case_no > 0 /\ case_no + Lanes <= Len(Cases) /\ case_no' = case_no + Lanes

(* Always true: differences are printed, and collected by the driver.       *)
Conforms ==
  IF case_no < 0 THEN TRUE
  ELSE LET ps == Problems(Cases[case_no]) IN
       IF ~ Matter(ps) THEN TRUE
       ELSE PrintT(<<"MISMATCH", case_no, ps>>) /\ (IF "MBT_SHOW" \in DOMAIN IOEnv THEN PrintT(Expected(Cases[case_no])) ELSE TRUE)
=============================================================================

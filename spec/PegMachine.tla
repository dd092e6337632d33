----------------------------- MODULE PegMachine -----------------------------
(***************************************************************************)
(* Parsing the way the implementation does it: a stack of calls, ONE       *)
(* buffer of metadata shared by all of them, cursors into it that say how  *)
(* much of it is live, ONE indentation shared by all of them, and errors   *)
(* combined on the way up.                                                 *)
(*                                                                         *)
(* An abandoned attempt leaves its items behind in the buffer; they die    *)
(* because the next writer truncates the buffer to its own cursor first.   *)
(* The invariants say that this is safe, that every call does what Peg     *)
(* says, and that the error coming out is the newest among the deepest.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

B == INSTANCE PegBest
L == INSTANCE PegLog

VARIABLES
  c,        \* what is parsed: document, offsets, rules, tab, align (see Peg)
  pre,      \* metadata the caller had collected before
  stack,    \* calls in progress, outermost first
  buf,      \* the buffer
  indent,   \* the indentation in force
  ret       \* result of the call that just ended, or NoRet

vars == <<c, pre, stack, buf, indent, ret>>

NoErr == B!NoFailB
NoRet == [k |-> "none"]

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)

(* A call of rule r at position p with cursor s.                            *)
(*   p, s, f: how far it got      n: how many parts are behind it           *)
(*   from: where the current iteration began       first: none is complete  *)
(*   ind0: indentation when called    line: indentation of the current line *)
(*   nl: a new line item may start                                          *)
(*   live: (observer) the items written by this call and still alive        *)
Call(r, p, s, ind) ==
  [r |-> r, at |-> p, p |-> p, s0 |-> s, s |-> s, f |-> NoErr, n |-> 0, from |-> p,
   first |-> TRUE, ind0 |-> ind, line |-> ind, nl |-> TRUE, live |-> <<>>]

(* Picks the deepest error, the newest if equally deep. *)
ErrUpdate(new, old) ==
  IF old = NoErr THEN new ELSE IF new # NoErr /\ old.e <= new.e THEN new ELSE old
(* Combines a certain failure with an earlier one. *)
RetErr(a, b) == IF b # NoErr /\ b.e > a.e THEN b ELSE a

(* Writing an item with cursor s: everything behind the cursor goes away.   *)
Written(s, item) == Append(IF s < Len(buf) THEN SubSeq(buf, 1, s) ELSE buf, item)

----------------------------------------------------------------------------
(* Ways to go on.                                                           *)
EndWith(top, ok, q, s, f, live) ==
  /\ stack' = Below
  /\ ret' = [k |-> "ret", r |-> top.r, at |-> top.at, ind |-> top.ind0, s0 |-> top.s0,
             ok |-> ok, q |-> q, s |-> s, f |-> f, live |-> live]

Succeed(top, q, s, f, live) == EndWith(top, TRUE, q, s, f, live)
FailWith(top, f) == EndWith(top, FALSE, 0, 0, f, <<>>)

Enter(top, r, p, s, ind) ==
  /\ stack' = Append(Append(Below, top), Call(r, p, s, ind))
  /\ ret' = NoRet

Same == UNCHANGED <<buf, indent>>

(* What a successful part adds to the call it belongs to. *)
Took(top) == [top EXCEPT !.p = ret.q, !.s = ret.s, !.f = ErrUpdate(ret.f, top.f),
                         !.live = top.live \o ret.live, !.n = top.n + 1]

Waiting == ret = NoRet
Returned == ret # NoRet

IsLeaf(r) == r.k \in {"ws", "tag", "ua", "uaw", "text", "num"}

----------------------------------------------------------------------------
Leaf ==
  /\ Waiting /\ stack # <<>> /\ IsLeaf(Top.r)
  /\ LET b == B!D(c, Top.r, Top.at, indent) IN
     IF ~ b.ok THEN FailWith(Top, b.f) /\ Same
     ELSE IF b.items = <<>> THEN Succeed(Top, b.q, Top.s, NoErr, <<>>) /\ Same
     ELSE /\ buf' = Written(Top.s, b.items[1])
          /\ Succeed(Top, b.q, Len(buf'), NoErr, b.items)
          /\ UNCHANGED indent
  /\ UNCHANGED <<c, pre>>

SequenceStep ==
  /\ stack # <<>> /\ Top.r.k = "seq"
  /\ IF Returned /\ ~ ret.ok THEN FailWith(Top, RetErr(ret.f, Top.f))
     ELSE LET now == IF Returned THEN Took(Top) ELSE Top IN
          IF now.n = Len(now.r.args) THEN Succeed(now, now.p, now.s, now.f, now.live)
          ELSE Enter(now, now.r.args[now.n + 1], now.p, now.s, indent)
  /\ Same /\ UNCHANGED <<c, pre>>

SelectStep ==
  /\ stack # <<>> /\ Top.r.k = "sel"
  /\ IF Top.r.args = <<>>
     THEN FailWith(Top, B!D(c, Top.r, Top.at, indent).f)
     ELSE IF Waiting THEN Enter([Top EXCEPT !.n = 1], Top.r.args[1], Top.at, Top.s, indent)
     ELSE IF ret.ok THEN Succeed(Top, ret.q, ret.s, ErrUpdate(ret.f, Top.f), ret.live)
     ELSE LET now == [Top EXCEPT !.f = ErrUpdate(ret.f, Top.f), !.n = Top.n + 1] IN
          IF Top.n = Len(Top.r.args) THEN FailWith(Top, now.f)
          ELSE Enter(now, Top.r.args[now.n], Top.at, Top.s, indent)
  /\ Same /\ UNCHANGED <<c, pre>>

(* n: 0 nothing tried, 1 the looked up alternative tried, 2 the tail tried  *)
FastSelectStep ==
  /\ stack # <<>> /\ Top.r.k = "fast"
  /\ LET r == Top.r
         byte == IF Top.at < Len(c.t) THEN B!FirstByte(c.t[Top.at + 1]) ELSE -1
         tail == r.args[Len(r.args)]
     IN IF Waiting
        THEN IF byte \in DOMAIN r.table
             THEN Enter([Top EXCEPT !.n = 1], r.args[r.table[byte]], Top.at, Top.s, indent)
             ELSE IF r.tail THEN Enter([Top EXCEPT !.n = 2], tail, Top.at, Top.s, indent)
             ELSE FailWith(Top, B!D(c, r, Top.at, indent).f)
        ELSE IF ret.ok THEN Succeed(Top, ret.q, ret.s, ErrUpdate(ret.f, Top.f), ret.live)
        ELSE IF Top.n = 1 /\ r.tail
             THEN Enter([Top EXCEPT !.n = 2, !.f = ret.f], tail, Top.at, Top.s, indent)
             ELSE FailWith(Top, RetErr(ret.f, Top.f))
  /\ Same /\ UNCHANGED <<c, pre>>

OptionalStep ==
  /\ stack # <<>> /\ Top.r.k = "opt"
  /\ IF Waiting THEN Enter(Top, Top.r.rule, Top.p, Top.s, indent)
     ELSE IF ret.ok THEN Succeed(Top, ret.q, ret.s, ret.f, ret.live)
     ELSE Succeed(Top, Top.at, Top.s0, ret.f, <<>>)
  /\ Same /\ UNCHANGED <<c, pre>>

NotStep ==
  /\ stack # <<>> /\ Top.r.k = "not"
  /\ IF Waiting THEN Enter(Top, Top.r.rule, Top.p, Top.s, indent)
     ELSE IF ret.ok
          THEN FailWith(Top, B!Fail(c, "DidNotExpectTag", Top.at, ret.q, Top.r.id, B!Slice(c.t, Top.at, ret.q)))
          ELSE Succeed(Top, Top.at, Top.s0, NoErr, <<>>)
  /\ Same /\ UNCHANGED <<c, pre>>

NodeStep ==
  /\ stack # <<>> /\ Top.r.k = "node"
  /\ LET r == Top.r
         Mark(t, q) == B!Item(c, t, r.prop[1], <<>>, Top.at, q)
     IN IF r.idx = 0 THEN FailWith(Top, B!D(c, r, Top.at, indent).f) /\ UNCHANGED buf
        ELSE IF Waiting
        THEN IF r.prop = <<>>
             THEN Enter(Top, c.refs[r.idx], Top.p, Top.s, indent) /\ UNCHANGED buf
             ELSE /\ buf' = Written(Top.s, Mark("start", Top.at))
                  /\ Enter([Top EXCEPT !.s = Len(buf'), !.live = <<Mark("start", Top.at)>>],
                           c.refs[r.idx], Top.p, Len(buf'), indent)
        ELSE IF ~ ret.ok THEN FailWith(Top, RetErr(ret.f, Top.f)) /\ UNCHANGED buf
        ELSE LET now == Took(Top) IN
             IF r.prop = <<>>
             THEN Succeed(Top, now.p, now.s, now.f, now.live) /\ UNCHANGED buf
             ELSE /\ buf' = Written(now.s, Mark("end", now.p))
                  /\ Succeed(Top, now.p, Len(buf'), now.f, Append(now.live, Mark("end", now.p)))
  /\ UNCHANGED <<c, pre, indent>>

RepeatStep ==
  /\ stack # <<>> /\ Top.r.k = "rep"
  /\ IF Waiting THEN Enter(Top, Top.r.rule, Top.p, Top.s, indent)
     ELSE IF ~ ret.ok
     THEN IF Top.first /\ ~ Top.r.opt THEN FailWith(Top, RetErr(ret.f, Top.f))
          ELSE Succeed(Top, Top.p, Top.s, ErrUpdate(ret.f, Top.f), Top.live)
     ELSE LET now == [Took(Top) EXCEPT !.first = FALSE] IN
          IF now.p = Top.p THEN Succeed(Top, now.p, now.s, now.f, now.live)
          ELSE Enter(now, Top.r.rule, now.p, now.s, indent)
  /\ Same /\ UNCHANGED <<c, pre>>

(* n even: the item is next or in progress; n odd: the separator.           *)
SeparateByStep ==
  /\ stack # <<>> /\ Top.r.k = "sep"
  /\ LET r == Top.r
         item == Top.n % 2 = 0
     IN IF Waiting THEN Enter([Top EXCEPT !.from = Top.p], r.rule, Top.p, Top.s, indent)
        ELSE IF item
        THEN IF ret.ok THEN Enter(Took(Top), r.by, ret.q, ret.s, indent)
             ELSE IF (Top.first /\ ~ r.opt) \/ (~ Top.first /\ ~ r.trail)
             THEN FailWith(Top, RetErr(ret.f, Top.f))
             ELSE Succeed(Top, Top.p, Top.s, ErrUpdate(ret.f, Top.f), Top.live)
        ELSE IF ~ ret.ok THEN Succeed(Top, Top.p, Top.s, ErrUpdate(ret.f, Top.f), Top.live)
        ELSE LET now == [Took(Top) EXCEPT !.first = FALSE, !.from = ret.q] IN
             IF now.p = Top.from THEN Succeed(Top, now.p, now.s, now.f, now.live)
             ELSE Enter(now, r.rule, now.p, now.s, indent)
  /\ Same /\ UNCHANGED <<c, pre>>

(* The indentation is raised for the rule of a line and put back after it;  *)
(* what the first line aligned it to goes away with the list.               *)
LinesStep ==
  /\ stack # <<>> /\ Top.r.k = "lines"
  /\ LET r == Top.r
         dedent == indent' = IF r.indent THEN Top.ind0 ELSE indent
         \* with the returned line taken into account
         now == IF Waiting THEN Top
                ELSE IF ret.ok THEN [Took(Top) EXCEPT !.first = FALSE, !.nl = B!EndsWithNewline(c, Top.from, ret.q)]
                ELSE Top
         l == B!NextLine(c, now.p, now.nl)
         col == IF Waiting THEN indent ELSE Top.line
     IN IF Returned /\ ~ ret.ok
        THEN dedent /\ Succeed(Top, Top.from, Top.s, ErrUpdate(ret.f, Top.f), Top.live)
        ELSE IF Returned /\ ret.q = Top.from
        THEN dedent /\ Succeed(Top, ret.q, ret.s, ErrUpdate(ret.f, Top.f), now.live)
        ELSE IF l.none
        THEN dedent /\ Succeed(Top, l.at, now.s, now.f, now.live)
        ELSE IF ~ l.crossed
        THEN dedent /\ FailWith(Top, RetErr(B!Fail(c, "ExpectedNewLine", l.at, l.at, r.id, <<>>), now.f))
        ELSE IF ~ r.indent
        THEN UNCHANGED indent /\ Enter([now EXCEPT !.from = l.at], r.rule, l.at, now.s, indent)
        ELSE LET d == B!LineIndent(c, l.at, col, now.first) IN
             IF ~ d.ok THEN dedent /\ Succeed(Top, l.at, now.s, now.f, now.live)
             ELSE /\ indent' = d.ind + 1
                  /\ Enter([now EXCEPT !.from = l.at, !.line = d.ind], r.rule, d.q, now.s, d.ind + 1)
  /\ UNCHANGED <<c, pre, buf>>

Step == \/ Leaf \/ SequenceStep \/ SelectStep \/ FastSelectStep \/ OptionalStep \/ NotStep
        \/ NodeStep \/ RepeatStep \/ SeparateByStep \/ LinesStep

(* The caller: the last rule, on a buffer that may already hold something.  *)
Start(ctx, collected, ind) ==
  /\ c = ctx /\ pre = collected /\ buf = collected /\ indent = ind /\ ret = NoRet
  /\ stack = << Call(ctx.refs[Len(ctx.refs)], 0, Len(collected), ind) >>

Done == stack = <<>>

----------------------------------------------------------------------------
(* What the caller gets.                                                    *)
Accepted == ret.ok /\ ret.q = Len(c.t)
Collected == SubSeq(buf, 1, ret.s)
Reported == IF ~ ret.ok THEN ret.f
            ELSE RetErr(B!Fail(c, "ExpectedEnd", ret.q, ret.q, 0, <<>>), ret.f)

(* The caller's own metadata is never touched. *)
KeepsCollected == SubSeq(buf, 1, Len(pre)) = pre

(* Every cursor of a call in progress points into the buffer, behind what   *)
(* the calls around it own, and what is in front of it is what was written. *)
CursorsLive ==
  \A i \in 1..Len(stack) :
    LET f == stack[i] IN
    /\ Len(pre) <= f.s0 /\ f.s0 <= f.s /\ f.s <= Len(buf)
    /\ i > 1 => stack[i - 1].s <= f.s0
    /\ SubSeq(buf, f.s0 + 1, f.s) = f.live

ReturnLive ==
  ret # NoRet /\ ret.ok =>
    ret.s0 <= ret.s /\ ret.s <= Len(buf) /\ SubSeq(buf, ret.s0 + 1, ret.s) = ret.live

(* Every call, however deep, does what Peg says, and leaves the indentation *)
(* as it was.                                                               *)
EveryCallIsRight ==
  ret # NoRet =>
    LET e == B!D(c, ret.r, ret.at, ret.ind) IN
    /\ ret.ok = e.ok
    /\ ret.ok => ret.q = e.q /\ ret.live = e.items
    /\ ret.f = e.f
    /\ indent = ret.ind

(* The whole parse. *)
RightResult ==
  Done =>
    LET e == B!ParseIn(c, ret.ind) IN
    /\ Accepted = e.ok
    /\ IF Accepted THEN Collected = pre \o e.items ELSE Reported = e.f

(* The error is the newest among the deepest of all that happened. *)
DeepestReported ==
  Done /\ ~ Accepted =>
    LET log == L!ParseIn(c, ret.ind).f
        far == {i \in 1..Len(log) : \A j \in 1..Len(log) : log[j].e <= log[i].e}
    IN Reported = log[CHOOSE i \in far : \A j \in far : j <= i]

(* Items of a successful parse form a tree over the document. *)
O == INSTANCE Observe
WellFormedTree ==
  Done /\ Accepted => O!WellFormed(SubSeq(buf, Len(pre) + 1, ret.s), c.o)

(* Nothing is ever stuck in the middle. *)
NeverStuck == ~ Done => ENABLED Step

(* Every round but the last of a loop moves forward, so there are at most   *)
(* as many rounds as characters, and one more.                              *)
LoopsMoveOn ==
  \A i \in 1..Len(stack) :
    LET s == stack[i] IN
    CASE s.r.k \in {"rep", "lines"} -> s.n <= s.p - s.at
      [] s.r.k = "sep" -> s.n \div 2 <= s.p - s.at
      [] OTHER -> TRUE

Terminates == <>Done
=============================================================================

------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What the harness writes down about the implementation, and the same     *)
(* thing said about the specification, so that the two can be compared.    *)
(* An observed item is [t, n, v, o, e] where v is a sequence of integers.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* Endless values are 2 and 3. *)
CanonNum(v) ==
  IF v.mant = 0 /\ v.exp # 0 THEN << IF v.neg THEN 3 ELSE 2, 0, 0 >>
  ELSE << IF v.neg THEN 1 ELSE 0, v.mant, v.exp >>

Canon(it) ==
  [t |-> it.t, n |-> it.n, o |-> it.o, e |-> it.e,
   v |-> CASE it.t = "bool" -> << IF it.v THEN 1 ELSE 0 >>
           [] it.t = "f64"  -> CanonNum(it.v)
           [] OTHER         -> it.v]

CanonAll(items) == [i \in 1..Len(items) |-> Canon(items[i])]

(* The model makes no statement about numbers it cannot hold. *)
Silent(items) == \E i \in 1..Len(items) : items[i].t = "f64" /\ items[i].v.huge

(* Sequences of strings naming what went wrong. *)
If(bad, name) == IF bad THEN <<name>> ELSE <<>>

(***************************************************************************)
(* A well-formed tree over a document.  offs: byte offsets of characters.  *)
(***************************************************************************)
Elems(s) == {s[i] : i \in 1..Len(s)}

(* Going through the items: open: nodes still open, the innermost last;     *)
(* at: no item starts before.                                              *)
Nested(items) ==
  LET Next(s, it) ==
        IF ~ s.ok THEN s
        ELSE CASE it.t = "start" -> [ok |-> it.o >= s.at /\ it.e = it.o, open |-> Append(s.open, it), at |-> it.o]
               [] it.t = "end" ->
                    IF s.open = <<>> THEN [s EXCEPT !.ok = FALSE]
                    ELSE LET n == s.open[Len(s.open)] IN
                         [ok |-> /\ n.n = it.n
                                 /\ n.o = it.o            \* the node covers what it read:
                                 /\ it.e >= s.at,         \* it ends after its last child
                          open |-> SubSeq(s.open, 1, Len(s.open) - 1), at |-> it.e]
               [] OTHER -> [ok |-> it.o >= s.at /\ it.e >= it.o, open |-> s.open, at |-> it.e]
      whole == FoldLeft(Next, [ok |-> TRUE, open |-> <<>>, at |-> 0], items)
  IN whole.ok /\ whole.open = <<>>

WellFormed(items, offs) ==
  /\ {items[i].o : i \in 1..Len(items)} \cup {items[i].e : i \in 1..Len(items)} \subseteq Elems(offs)
  /\ Nested(items)
=============================================================================

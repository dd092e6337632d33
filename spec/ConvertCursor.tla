---------------------------- MODULE ConvertCursor ----------------------------
(***************************************************************************)
(* The conversion cursor over metadata: a position.  Reading the next item *)
(* says how far to go; ignoring goes past one item or one whole node.      *)
(* Items are in observed form [t, n, v, o, e].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Kind(op) == CASE op = "start" -> "start" [] op = "end" -> "end" [] op = "str" -> "str"
              [] op = "f64" -> "f64" [] op = "bool" -> "bool"

(* Number of items of the node (or single item) at index i; an end without *)
(* a start is a single item, a node that is never closed reaches the end.  *)
RECURSIVE Extent(_, _, _)
Extent(d, i, open) ==
  IF i > Len(d) THEN 0
  ELSE LET n == CASE d[i].t = "start" -> open + 1
                  [] d[i].t = "end" -> IF open = 0 THEN 0 ELSE open - 1
                  [] OTHER -> open
       IN IF n = 0 THEN 1 ELSE 1 + Extent(d, i + 1, n)

(* Outcome of a step at position `at`: number of items consumed, value.    *)
Do(d, at, op, name) ==
  IF op = "ignore" THEN [ok |-> TRUE, n |-> Extent(d, at + 1, 0), v |-> <<>>]
  ELSE IF at < Len(d) /\ d[at + 1].t = Kind(op) /\ d[at + 1].n = name
       THEN [ok |-> TRUE, n |-> 1, v |-> d[at + 1].v]
  ELSE [ok |-> FALSE, n |-> 0, v |-> <<>>]

(* What was consumed between two positions: items, and where they came from.*)
Count(from, to) == <<from, to - from>>
Source(d, from, to) ==
  IF from >= Len(d) \/ to <= from THEN <<>>
  ELSE <<d[from + 1].o, d[to].e - d[from + 1].o>>
=============================================================================

---------------------------- MODULE SearchCursor ----------------------------
(***************************************************************************)
(* The search cursor over metadata: a position and the range of the item   *)
(* read last.  A step is [op, name, v]; its outcome is                     *)
(*   [ok, v, err: <<o, e>>, inner: cursor, next: cursor].                  *)
(* Items are in observed form [t, n, v, o, e].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Kind(op) == CASE op \in {"bool", "for_bool"} -> "bool" [] op \in {"f64", "for_f64"} -> "f64"
              [] op \in {"str", "for_str"} -> "str" [] op \in {"node", "for_node"} -> "start"
              [] op \in {"end", "for_end"} -> "end"
Searches == {"for_bool", "for_f64", "for_str", "for_node", "for_end"}

(* range is <<>> as long as nothing was read, else <<offset, length>>.     *)
Cursor(at, range) == [at |-> at, range |-> range]
Begin == Cursor(0, <<>>)

RangeOf(it) == <<it.o, it.e - it.o>>
LastRange(cur) == IF cur.range = <<>> THEN <<0, 0>> ELSE <<cur.range[1], cur.range[1] + cur.range[2]>>
Behind(d, i) == Cursor(i, RangeOf(d[i]))     \* i: index of the item read

(* Zero has two signs but is one number. *)
SameValue(t, a, b) == a = b \/ (t = "f64" /\ a[1] # 2 /\ b[1] # 2 /\ a[2] = 0 /\ b[2] = 0)

Found(v, next)        == [ok |-> TRUE, v |-> v, err |-> <<>>, inner |-> <<>>, next |-> next]
Handed(inner, next)   == [ok |-> TRUE, v |-> <<>>, err |-> <<>>, inner |-> inner, next |-> next]
Missed(err, next)     == [ok |-> FALSE, v |-> <<>>, err |-> err, inner |-> <<>>, next |-> next]

Read(d, cur, op, name) ==
  IF cur.at >= Len(d) THEN Missed(LastRange(cur), cur)
  ELSE LET it == d[cur.at + 1] IN
       IF it.t = Kind(op) /\ it.n = name THEN Found(it.v, Behind(d, cur.at + 1))
       ELSE Missed(<<it.o, it.e>>, cur)

Search(d, cur, op, name, v) ==
  LET i == SelectInSubSeq(d, cur.at + 1, Len(d),
             LAMBDA it : /\ it.t = Kind(op) /\ it.n = name
                         /\ op \in {"for_node", "for_end"} \/ SameValue(it.t, it.v, v))
  IN IF i = 0 THEN Missed(LastRange(cur), cur) ELSE Handed(Behind(d, i), cur)

(* What was to be done with what a search found may fail; the search then   *)
(* fails with the very error of that (the harness uses this one).          *)
Mine == [k |-> "ExpectedTag", o |-> 123, e |-> 127, id |-> 9, x |-> <<109, 105, 110, 101>>]

Do(d, cur, op, name, v) ==
  IF op \in Searches THEN Search(d, cur, op, name, v) ELSE Read(d, cur, op, name)
=============================================================================

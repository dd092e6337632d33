------------------------------ MODULE MCCursor ------------------------------
(***************************************************************************)
(* The conversion cursor in a small world: all short sequences of items,   *)
(* every step from everywhere a walk can get to, and what was consumed     *)
(* since every earlier point of the walk.                                  *)
(***************************************************************************)
EXTENDS ConvertCursor, SequencesExt, FiniteSets, IOUtils, TLC, Json

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 2

Names == {<<97>>, <<98>>}
ItemKinds == { <<"start", <<>>>>, <<"end", <<>>>>, <<"bool", <<1>>>>, <<"str", <<120>>>>, <<"f64", <<0, 5, 0>>>> }
(* Long sequences have one name only. *)
Things(n) == { [t |-> k[1], n |-> nm, v |-> k[2]] : k \in ItemKinds, nm \in IF n <= 2 THEN Names ELSE {<<97>>} }
Placed(s) == [i \in 1..Len(s) |-> s[i] @@ [o |-> 10 * i, e |-> 10 * i + i]]

Reads == { <<op, nm>> : op \in {"start", "end", "str", "f64", "bool"}, nm \in Names }
Steps == Reads \cup {<<"ignore", <<97>>>>}

VARIABLES the_data, the_place, the_walk
vars == <<the_data, the_place, the_walk>>

From(p, st) == Do(the_data, p, st[1], st[2])
Outcome(st) == From(the_place, st)
N == Len(the_data)

Init == /\ \E n \in 0..Size : the_data \in {Placed(s) : s \in [1..n -> Things(n)]}
        /\ the_place = 0
        /\ the_walk = <<>>
Next == \E st \in Steps :
          /\ Outcome(st).n > 0
          /\ the_place' = the_place + Outcome(st).n
          /\ the_walk' = Append(the_walk, st)
          /\ UNCHANGED the_data
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
InData == the_place \in 0..N

(* Reading takes one item, of the kind and the name, or nothing. *)
TakesNext == \A st \in Reads :
  LET r == Outcome(st)
      fits == the_place < N /\ the_data[the_place + 1].t = st[1] /\ the_data[the_place + 1].n = st[2]
  IN /\ r.ok <=> fits
     /\ r.n = IF fits THEN 1 ELSE 0
     /\ fits => r.v = the_data[the_place + 1].v

(* How deep one is in nodes behind the i-th item, counted from here. *)
Depth(i) == LET at(k) == {j \in (the_place + 1)..i : the_data[j].t = k} IN Cardinality(at("start")) - Cardinality(at("end"))

(* Ignoring goes past the next item, and if that starts a node past all of  *)
(* it: to the first place where one is as deep as here, or to the end.      *)
IgnoresWhole ==
  LET r == Outcome(<<"ignore", <<>>>>)
      closed == {i \in (the_place + 1)..N : Depth(i) <= 0}
  IN /\ r.ok
     /\ the_place + r.n = IF closed = {} THEN N ELSE CHOOSE i \in closed : \A j \in closed : i <= j

(* Going on always gets to the end: everything is ignored some time. *)
GoesOn == the_place < N => Outcome(<<"ignore", <<>>>>).n > 0

(* What was consumed adds up along a walk, and where it came from starts    *)
(* with the first item and ends with the last.                              *)
AddsUp == \A i, j \in 0..N : i <= j /\ j <= the_place =>
  /\ Count(i, the_place)[2] = Count(i, j)[2] + Count(j, the_place)[2]
  /\ i < the_place => LET s == Source(the_data, i, the_place) IN
       s[1] = the_data[i + 1].o /\ s[1] + s[2] = the_data[the_place].e
  /\ i = the_place => Source(the_data, i, the_place) = <<>>

----------------------------------------------------------------------------
(* Places a walk comes by. *)
Places(walk) == FoldLeft(LAMBDA acc, st : Append(acc, acc[Len(acc)] + From(acc[Len(acc)], st).n), <<0>>, walk)
Along(walk) ==
  LET at == Places(walk) IN
  [i \in 1..Len(walk) |->
     LET r == From(at[i], walk[i]) IN
     [ok |-> r.ok, v |-> r.v, left |-> N - at[i + 1], range |-> IF r.ok THEN Count(at[i], at[i + 1]) ELSE <<>>,
      since |-> [k \in 1..i |-> <<Count(at[k], at[i + 1]), Source(the_data, at[k], at[i + 1])>>]]]
Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ \A st \in Steps :
          LET walk == Append(the_walk, st) IN
          PrintT(ToJson([op |-> "cursor", data |-> the_data, script |-> walk, told |-> [r |-> "ok", steps |-> Along(walk)]]))
=============================================================================

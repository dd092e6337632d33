------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* The search cursor in a small world: all short sequences of items, every *)
(* step from everywhere a walk can get to.  What a step does is checked    *)
(* against what is said here without looking at how SearchCursor finds it, *)
(* and every walk followed by every step is told to be replayed.           *)
(***************************************************************************)
EXTENDS SearchCursor, IOUtils, TLC, Json

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 2

Names == {<<97>>, <<98>>}
Five == <<0, 5, 0>>
Six == <<1, 6, 0>>
ItemKinds == { <<"start", <<>>>>, <<"end", <<>>>>, <<"bool", <<0>>>>, <<"bool", <<1>>>>,
               <<"str", <<>>>>, <<"str", <<120>>>>, <<"f64", Five>>, <<"f64", Six>> }
Things == { [t |-> k[1], n |-> n, v |-> k[2]] : k \in ItemKinds, n \in Names }
(* Items far apart, each of another length, so that all places differ. *)
Placed(s) == [i \in 1..Len(s) |-> s[i] @@ [o |-> 10 * i, e |-> 10 * i + i]]
Sequences == UNION {[1..n -> Things] : n \in 0..Size}

Reads == { [op |-> op, n |-> n, v |-> <<>>] : op \in {"bool", "f64", "str", "node", "end"}, n \in Names }
Hunts == { [op |-> x[1], n |-> n, v |-> x[2]] : n \in Names,
             x \in { <<"for_bool", <<0>>>>, <<"for_bool", <<1>>>>, <<"for_str", <<>>>>, <<"for_str", <<120>>>>,
                     <<"for_f64", Five>>, <<"for_f64", Six>>, <<"for_node", <<>>>>, <<"for_end", <<>>>> } }
Steps == Reads \cup Hunts

VARIABLES the_data, the_cursor, the_walk
vars == <<the_data, the_cursor, the_walk>>

Outcome(st) == Do(the_data, the_cursor, st.op, st.n, st.v)
Target(st, r) == IF st \in Hunts /\ r.ok THEN r.inner ELSE r.next

Init == /\ the_data \in {Placed(s) : s \in Sequences}
        /\ the_cursor = Begin
        /\ the_walk = <<>>
Next == \E st \in Steps :
          LET r == Outcome(st) IN
          /\ r.ok
          /\ the_cursor' = Target(st, r)
          /\ the_walk' = Append(the_walk, st)
          /\ UNCHANGED the_data
Spec == Init /\ [][Next]_vars
View == <<the_data, the_cursor>>   \* how it came there does not matter

----------------------------------------------------------------------------
Ahead == {i \in 1..Len(the_data) : i > the_cursor.at}
Fits(st, it) == it.t = Kind(st.op) /\ it.n = st.n /\ (st \in Reads \/ st.op \in {"for_node", "for_end"} \/ it.v = st.v)

(* The cursor stands behind what was read last, and remembers its range.   *)
Stands == IF the_cursor.at = 0 THEN the_cursor.range = <<>>
          ELSE the_cursor.range = RangeOf(the_data[the_cursor.at])

(* A step that misses moves nothing; a search leaves the cursor, too.      *)
Keeps == \A st \in Steps : LET r == Outcome(st) IN ~ r.ok \/ st \in Hunts => r.next = the_cursor

(* Reading takes the next item, if that is of the kind and the name.       *)
TakesNext == \A st \in Reads :
  LET r == Outcome(st) IN
  /\ r.ok <=> Ahead # {} /\ Fits(st, the_data[the_cursor.at + 1])
  /\ r.ok => r.next.at = the_cursor.at + 1 /\ r.v = the_data[r.next.at].v

(* Searching finds the first one ahead that fits, if there is any.         *)
FindsFirst == \A st \in Hunts :
  LET r == Outcome(st)
      fit == {i \in Ahead : Fits(st, the_data[i])}
  IN /\ r.ok <=> fit # {}
     /\ r.ok => r.inner.at \in fit /\ \A i \in fit : r.inner.at <= i

(* What a search finds could have been read there.                         *)
Reading(op) == CASE op = "for_bool" -> "bool" [] op = "for_f64" -> "f64" [] op = "for_str" -> "str"
                 [] op = "for_node" -> "node" [] op = "for_end" -> "end"
FoundIsRead == \A st \in Hunts :
  LET r == Outcome(st) IN
  r.ok => LET x == Do(the_data, Cursor(r.inner.at - 1, <<>>), Reading(st.op), st.n, <<>>)
          IN x.ok /\ x.next = r.inner

(* A miss says where: the item that is there instead, or what was read last.*)
SaysWhere == \A st \in Steps :
  LET r == Outcome(st) IN
  ~ r.ok => r.err = IF st \in Reads /\ Ahead # {} THEN <<the_data[the_cursor.at + 1].o, the_data[the_cursor.at + 1].e>>
                    ELSE IF the_cursor.at = 0 THEN <<0, 0>>
                    ELSE <<the_data[the_cursor.at].o, the_data[the_cursor.at].e>>

(* Every walk comes to an end: a step that succeeds goes on.               *)
Advances == [][the_cursor'.at > the_cursor.at]_the_cursor

----------------------------------------------------------------------------
(* Steps as scripts have them; "in" goes on with what a search found.      *)
Scripted(st) == IF st.op \in {"for_node", "for_end"} THEN <<st.op, st.n, "in">>
                ELSE IF st \in Hunts THEN <<st.op, st.n, st.v, "in">> ELSE <<st.op, st.n>>
Seen(r) == [ok |-> r.ok, v |-> r.v, inner |-> r.inner, after |-> r.next]
           @@ IF r.ok THEN <<>> ELSE [err |-> [k |-> "Conversion", o |-> r.err[1], e |-> r.err[2]]]
(* Outcomes of the steps of a walk, from the beginning. *)
Along(walk) ==
  FoldLeft(LAMBDA acc, st : LET r == Do(the_data, acc.cur, st.op, st.n, st.v)
                            IN [cur |-> Target(st, r), seen |-> Append(acc.seen, Seen(r))],
           [cur |-> Begin, seen |-> <<>>], walk).seen
Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ \A st \in Steps :
          LET walk == Append(the_walk, st) IN
          PrintT(ToJson([op |-> "search", data |-> the_data, script |-> [i \in 1..Len(walk) |-> Scripted(walk[i])],
                         told |-> [r |-> "ok", steps |-> Along(walk)]]))
=============================================================================

------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* Metadata as JSON in a small world.  Trees grow item by item; whenever   *)
(* one is complete, it is written, and what was written is read again.     *)
(* Every complete tree is handed out as a case: what the code writes for   *)
(* it has to be read as that tree, too.                                    *)
(***************************************************************************)
EXTENDS JsonText, IOUtils, Json

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 3

Names == { S("a"), <<34, 92>> }
Texts == { <<>>, S("a"), <<92, 117, 48, 48, 54, 49>>, <<10, 31, 127, 233, 8232, 128512>> }
Digits == { <<0, 0>>, <<1, 0, 5>>, <<0, -1, 2, 5>>, <<0, 3, 1>> }
Notation == [ d \in Digits |-> CASE d = <<0, 0>> -> S("0") [] d = <<1, 0, 5>> -> S("-5") [] d = <<0, -1, 2, 5>> -> S("2.5") [] OTHER -> S("1e3") ]

Leaves == { [t |-> "bool", n |-> n, v |-> <<b>>] : n \in Names, b \in {0, 1} }
          \cup { [t |-> "str", n |-> n, v |-> x] : n \in Names, x \in Texts }
          \cup { [t |-> "f64", n |-> n, v |-> d] : n \in Names, d \in Digits }

VARIABLES the_tree, the_open      \* items so far; names of the nodes that are open
Put(x) == the_tree' = Append(the_tree, x)
Init == the_tree = <<>> /\ the_open = <<>>
Room == Len(the_tree) + Len(the_open) < Size
Leaf == Room /\ (\E x \in Leaves : Put(x)) /\ UNCHANGED the_open
Open == /\ Room
        /\ \E n \in Names : Put([t |-> "start", n |-> n, v |-> <<>>]) /\ the_open' = Append(the_open, n)
Close == /\ the_open # <<>>
         /\ Put([t |-> "end", n |-> the_open[Len(the_open)], v |-> <<>>])
         /\ the_open' = SubSeq(the_open, 1, Len(the_open) - 1)
Next == Leaf \/ Open \/ Close

Complete == the_open = <<>>
Output == JsonWrite(the_tree, Notation)

(* What was written is that tree. *)
ReadsBack == Complete => LET r == JsonRead(Output) IN r.ok /\ SameTree(the_tree, r.v)

(* The reader is strict: without any of its characters, blanks aside, the   *)
(* text is no JSON or another tree (the nothing of no items aside).         *)
Strict == Complete => \A i \in 1..Len(Output) :
  \/ Output[i] \in {32, 10}
  \/ LET less == SubSeq(Output, 1, i - 1) \o SubSeq(Output, i + 1, Len(Output))
         r == JsonRead(less)
     IN ~ r.ok \/ ~ SameTree(the_tree, r.v)

(* An unfinished tree is no JSON. *)
OpenIsNone == ~ Complete => ~ JsonRead(Output).ok

Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
AsItem(x) == IF x.t = "f64" THEN [t |-> x.t, n |-> x.n, v |-> <<0, 0, 0>>, d |-> x.v] ELSE x
Tell == Told = "" \/ ~ Complete \/ PrintT(ToJson([op |-> "json", data |-> [i \in 1..Len(the_tree) |-> AsItem(the_tree[i])]]))
=============================================================================

------------------------------ MODULE PegBest ------------------------------
(* Meaning of grammars with the reported failure: the one that reaches      *)
(* furthest; among equals the newest.                                       *)
EXTENDS Integers, Sequences
NoFailB == [k |-> "none", o |-> 0, e |-> -1, id |-> 0, x |-> <<>>]
OneB(f) == f
JoinB(old, new) == IF new.e >= old.e THEN new ELSE old
INSTANCE Peg WITH Join <- JoinB, NoFail <- NoFailB, One <- OneB
=============================================================================

------------------------------- MODULE PegLog -------------------------------
(* Meaning of grammars with the complete list of failures, oldest first.    *)
EXTENDS Integers, Sequences
NoFailL == <<>>
OneL(f) == <<f>>
JoinL(old, new) == old \o new
INSTANCE Peg WITH Join <- JoinL, NoFail <- NoFailL, One <- OneL
=============================================================================

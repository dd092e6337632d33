-------------------------------- MODULE Meta --------------------------------
(* Compiling grammar text. *)
EXTENDS Observe, MetaGrammar, Convert

MP == INSTANCE PegBest

MetaCtx(t) == MP!Ctx(MetaRules, t, 4, TRUE)

(* Metadata of a grammar text, or where it goes wrong. *)
MetaRead(t) == MP!ParseIn(MetaCtx(t), 0)

(* Rules and names, or the range of what is wrong. *)
Compiled(t) ==
  LET p == MetaRead(t)
      d == CanonAll(p.items)
      c == Converted(d)
      Wrong(o, e) == [ok |-> FALSE, rules |-> <<>>, names |-> <<>>, o |-> o, e |-> e]
  IN IF ~ p.ok THEN Wrong(p.f.o, p.f.e)
     ELSE IF ~ c.ok THEN Wrong(0, 0)
     ELSE IF c.ignored # <<>> THEN LET x == d[c.ignored[1][1] + 1] IN Wrong(x.o, x.e)
     ELSE [ok |-> TRUE, rules |-> c.rules, names |-> c.names, o |-> 0, e |-> 0]
=============================================================================

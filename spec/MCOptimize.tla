----------------------------- MODULE MCOptimize -----------------------------
(***************************************************************************)
(* Optimizing changes nothing: checked for all choices of a small world,   *)
(* with tables so small that they overflow, on all documents.  One state   *)
(* is one grammar.                                                         *)
(***************************************************************************)
EXTENDS Universe, IOUtils

P == INSTANCE PegBest
O == INSTANCE Optimize

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 3
p == <<S("p")>>
q == <<S("q")>>
e1 == 233      \* two characters with the same first byte
e2 == 234

Leaves == { Tag(S("a"), p), Tag(S("ab"), q), Tag(<<>>, p), NoTag(S("a"), p), Tag(<<e1>>, p), Tag(<<e2>>, q),
            Seq2(<<Tag(S("b"), p), Tag(S("a"), q)>>), Quoted(FALSE, q), Ws(TRUE), Node(1, p),
            Not(Not(Tag(S("b"), q))), Rep(Tag(S("b"), q), FALSE), Rep(Tag(S("b"), q), TRUE),
            Sep(Tag(S("a"), q), Tag(S("b"), <<>>), FALSE, TRUE), Sel(<<Tag(S("b"), q)>>), Sel(<<>>) }
Shared == Seq2(<<Tag(S("b"), q), Opt(Tag(S("b"), p))>>)
Few == { Tag(S("a"), p), Tag(S("ab"), q), Tag(S("b"), q), Node(1, p), Tag(<<e1>>, p), Ws(TRUE), Rep(Tag(S("b"), q), TRUE) }

ChoiceRules == { Sel(<<x, y>>) : x, y \in Leaves }
           \cup { Sel(<<x, y, z>>) : x, y, z \in Few }
           \cup { Sel(<<Tag(S("a"), p), Tag(S("b"), q), x, y>>) : x, y \in Few }
           \cup { Sel(<<x, Sel(<<Tag(S("a"), p), y>>), Tag(S("b"), q)>>) : x, y \in Few }
Tops(x) == { x, Rep(x, TRUE), Sep(x, Tag(S("b"), <<>>), TRUE, TRUE), Seq2(<<Opt(x), Ua(<<>>, TRUE, p)>>), Not(x),
             Lines(x, TRUE), Sel(<<x, Tag(S("a"), p)>>) }

Docs == TextsOf({97, 98, e1}, Size) \cup TextsOf({34, 98}, Size)

VARIABLES the_choice, the_grammar, the_limit
Init == the_choice \in ChoiceRules /\ the_grammar = <<>> /\ the_limit = 0
Next == /\ the_grammar = <<>>
        /\ \E y \in Tops(the_choice) : the_grammar' = Numbered(<<Shared, y>>)
        /\ the_limit' \in {2, 3, 255}
        /\ UNCHANGED the_choice

Same(plain, fast, t) ==
  LET a == P!ParseIn(P!Ctx(plain, t, 4, TRUE), 0)
      b == P!ParseIn(P!Ctx(fast, t, 4, TRUE), 0)
  IN a.ok = b.ok /\ IF a.ok THEN a.items = b.items ELSE a.f.o = b.f.o /\ a.f.e = b.f.e

Once == O!Optimized(the_grammar, the_limit)   \* nothing yet if the_grammar = <<>>
ChangesNothing == \A t \in Docs : Same(the_grammar, Once, t)
Again == O!Optimized(Once, the_limit)
TwiceChangesNothing == Again # Once => \A t \in Docs : Same(the_grammar, Again, t)
FlatUndoes == O!FlatRules(Once) = O!FlatRules(the_grammar) /\ O!FlatRules(Again) = O!FlatRules(the_grammar)
=============================================================================

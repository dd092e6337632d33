------------------------------- MODULE MCMeta -------------------------------
(***************************************************************************)
(* The meta language and the grammars it describes: writing down any small *)
(* grammar, in any layout, and compiling that gives the grammar again.     *)
(* One state is one grammar in one layout.                                 *)
(***************************************************************************)
EXTENDS Meta, Written, IOUtils, TLC, Json

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 1
p == <<S("p")>>
q == <<S("q")>>
None_ == <<>>
a == S("a")
odd == <<233, 34, 92, 10>>

Tags == { [k |-> "tag", text |-> x, not |-> n, inv |-> i, prop |-> r, id |-> 0] : x \in {a, odd}, n, i \in Bool, r \in {None_, p} }
Leaves == { x \in Tags : Writable(x) }
          \cup { Ws(o) : o \in Bool }
          \cup { Ua(x, o, r) : x \in {<<>>, a}, o \in Bool, r \in {None_, p} }
          \cup { Uaw(x, o, r) : x \in {<<>>, a}, o \in Bool, r \in {None_, p} }
          \cup { Quoted(e, r) : e \in Bool, r \in {None_, p} }
          \cup { Num(u, r) : u \in Bool, r \in {None_, q} }
          \cup { [Node(i, r) EXCEPT !.name = IF i = 1 THEN S("n") ELSE S("w")] : i \in {1, 2}, r \in {None_, q} }
Few == { Tag(a, p), NoTag(a, p), Ws(TRUE), Ua(<<>>, FALSE, q), Uaw(a, TRUE, None_), [Node(1, None_) EXCEPT !.name = S("n")], Num(FALSE, None_) }
Second == IF Size = 1 THEN Few ELSE Leaves
(* Rules around a given one, alone or beside another. *)
Around(x) == { Opt(x), Not(x), Rep(x, TRUE), Rep(x, FALSE), Lines(x, TRUE), Lines(x, FALSE), Seq2(<<x>>), Sel(<<x>>) }
Beside(x) == { Sel(<<x, y>>) : y \in Second } \cup { Seq2(<<x, y>>) : y \in Second }
             \cup { Sep(x, y, o, tr) : y \in Second, o, tr \in Bool }
Nest(x) == { Lines(x, TRUE), Opt(x), Not(x), Rep(x, FALSE), Seq2(<<x, Ws(FALSE), Tag(a, p)>>), Sel(<<Num(TRUE, None_), x>>),
             Sep(x, Tag(a, q), TRUE, FALSE), Sep(Ws(TRUE), x, FALSE, TRUE) }

TheNames == << S("n"), S("w") >>
Layouts == { [may |-> <<>>, must |-> <<SP>>, line |-> <<NL>>, strings |-> <<>>],
             [may |-> <<SP>>, must |-> <<TAB, SP>>, line |-> <<SP, NL, NL>>, strings |-> <<>>],
             [may |-> <<NL, SP>>, must |-> <<13, NL>>, line |-> <<NL>> \o S(" // a = b") \o <<NL>> \o S("/* _a: /* */ \"*/") \o <<NL>>, strings |-> << <<S("s"), a>>, <<S("t"), <<112>>>> >>],
             [may |-> <<>>, must |-> <<NL>>, line |-> <<13, NL>>, strings |-> << <<S("a"), <<>>>>, <<S("e"), odd>>, <<S("b"), a>>, <<S("e"), S("not this one")>> >>] }

VARIABLES the_rule, how_deep, the_layout
Init == the_rule \in Leaves /\ how_deep = 0 /\ the_layout = <<>>
Build == /\ the_layout = <<>>
         /\ \/ how_deep = 0 /\ the_rule' \in Around(the_rule) \cup (IF Size > 1 \/ the_rule \in Few THEN Beside(the_rule) ELSE {}) /\ how_deep' = 9
            \/ how_deep <= Size /\ (how_deep > 0 \/ the_rule \in Few) /\ the_rule' \in Nest(the_rule) /\ how_deep' = how_deep + 1
            \/ Size > 1 /\ how_deep = 1 /\ the_rule' \in Around(the_rule) \cup Beside(the_rule) /\ how_deep' = 9
         /\ UNCHANGED the_layout
Lay == the_layout = <<>> /\ the_layout' \in Layouts /\ UNCHANGED <<the_rule, how_deep>>
Next == Build \/ Lay

Given_ == the_layout # <<>> /\ Writable(the_rule)
TheGrammar == << the_rule, Seq2(<<Tag(S("w"), None_), [Node(2, q) EXCEPT !.name = S("w")], [Node(1, None_) EXCEPT !.name = S("n")]>>) >>
TheText == Written(TheGrammar, TheNames, the_layout)
Reading == Compiled(TheText)

(* Compiling what was written gives what was written down. *)
Same == Given_ => LET e == Reading IN e.ok /\ e.names = TheNames /\ e.rules = Numbered(TheGrammar)

(* The metadata in between is a tree over the text. *)
IsTree == Given_ => LET m == MetaRead(TheText) IN m.ok /\ WellFormed(CanonAll(m.items), MetaCtx(TheText).o)

(* The layout makes no difference. *)
Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ ~ Given_ \/
  PrintT(ToJson([op |-> "meta", with |-> "builtin", t |-> TheText,
                 told |-> [r |-> "ok", rules |-> Numbered(TheGrammar), names |-> TheNames, ignored |-> <<>>,
                           items |-> CanonAll(MetaRead(TheText).items)]]))
=============================================================================

------------------------------ MODULE MCMachine ------------------------------
(***************************************************************************)
(* Bounded exhaustive check of PegMachine: all grammars and documents of a *)
(* small world, picked by the environment; or a world that is given, as a  *)
(* file of grammars and documents.                                         *)
(***************************************************************************)
EXTENDS PegMachine, Universe, IOUtils, Json

World == IOEnv.MBT_WORLD
Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 2
a == S("a")
p == <<S("p")>>
q == <<S("q")>>

(* Backtracking: choices, repetitions and separators over marked literals,  *)
(* inside a choice, so that there always is something to go back to.        *)
LeavesBack == { Tag(S("a"), p), Tag(S("ab"), q), NoTag(S("b"), p), Tag(<<>>, <<>>) }
InnerBack == Above(LeavesBack)
GrammarsBack ==
  { <<Sel(<<Seq2(<<x, Tag(S("b"), q)>>), Seq2(<<Tag(S("a"), p), y>>)>>)>> : x \in InnerBack, y \in {Rep(Tag(S("a"), q), TRUE)} }
  \cup { << x, Sel(<<Seq2(<<Node(1, p), Tag(S("b"), q)>>), Rep(Node(1, q), FALSE)>>) >> : x \in InnerBack }
  \cup { << Rep(x, TRUE) >> : x \in InnerBack }
  \cup { << Seq2(<<Opt(x), Opt(Not(x)), Ua(<<>>, TRUE, q)>>) >> : x \in InnerBack }
TextsBack == TextsOf({97, 98}, Size)

(* Lines, blocks and what follows them.                                     *)
Item == Tag(S("a"), p)
LineRules == { Item, Seq2(<<Item, Lines(Tag(S("b"), q), TRUE)>>), Seq2(<<Item, Opt(Lines(Item, TRUE))>>),
               Opt(Item), Seq2(<<Item, Ws(TRUE)>>), Lines(Item, FALSE), Lines(Item, TRUE) }
GrammarsLines ==
  { << Lines(x, i) >> : x \in LineRules, i \in Bool }
  \cup { << Seq2(<<Item, Lines(Node(1, p), TRUE)>>), Lines(Node(1, p), TRUE) >> }
  \cup { << Sel(<<Seq2(<<Tag(S("a"), p), Lines(x, TRUE), Tag(S("b"), <<>>)>>),
                  Seq2(<<Tag(S("a"), q), Ws(TRUE), Item, Lines(Item, TRUE)>>)>>) >> : x \in LineRules }
  \cup { << Seq2(<<Lines(x, i), Ws(TRUE), Lines(y, TRUE)>>) >> : x, y \in {Item, Seq2(<<Item, Lines(Item, TRUE)>>)}, i \in Bool }
TextsLines == TextsOf({97, 10, 32, 9}, Size)

(* Literals and characters of several bytes. *)
LeavesText == { Quoted(TRUE, p), Quoted(FALSE, q), Num(FALSE, p), Num(TRUE, q), Ua(<<34>>, FALSE, p),
                Uaw(<<233>>, TRUE, q), Tag(<<233>>, p), Ws(FALSE) }
GrammarsText == { << x >> : x \in LeavesText } \cup { << Sep(x, Tag(<<44>>, <<>>), TRUE, TRUE) >> : x \in LeavesText }
                \cup { << Sel(<<x, y>>) >> : x, y \in LeavesText }
TextsText == TextsOf({34, 49, 46, 233, 92}, Size)

Given == ndJsonDeserialize(IOEnv.MBT_GIVEN)

Grammars == CASE World = "back"  -> GrammarsBack
              [] World = "lines" -> GrammarsLines
              [] World = "text"  -> GrammarsText
Texts == CASE World = "back"  -> TextsBack
           [] World = "lines" -> TextsLines
           [] World = "text"  -> TextsText

(* Something the caller had before: one item, and one left over. *)
Before == << [t |-> "bool", n |-> <<122>>, v |-> TRUE, o |-> 0, e |-> 0] >>

Init ==
  IF World = "given"
  THEN \E i \in DOMAIN Given : Start(B!Ctx(Given[i].rules, Given[i].t, Given[i].tab, Given[i].align), Before, Given[i].ind)
  ELSE \E g \in Grammars, t \in Texts, tab \in (IF World = "lines" THEN {2, 4} ELSE {4}), al \in (IF World = "lines" THEN Bool ELSE {TRUE}) :
       Start(B!Ctx(Numbered(g), t, tab, al), Before, 0)
Next == Step

(***************************************************************************)
(* Behaviours told to the outside, where they are replayed on the code:    *)
(* what a caller gets, and what every call on the way did.  A call gets    *)
(* the metadata in front of its cursor, and something left over behind it. *)
(***************************************************************************)
Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
LeftOver == [t |-> "str", n |-> <<122>>, v |-> <<233>>, o |-> 0, e |-> 0]
Common == [rules |-> c.refs, t |-> c.t, tab |-> c.tab, align |-> c.align]
Tell ==
  CASE Told = "" -> TRUE
    [] Told \in {"parses", "calls"} /\ Done ->
         (Accepted /\ O!Silent(Collected))
         \/ PrintT(ToJson(Common @@ [op |-> "parse", ind |-> ret.ind, pre |-> O!CanonAll(pre),
              told |-> [r |-> IF Accepted THEN "ok" ELSE "err", pre |-> TRUE,
                        items |-> IF Accepted THEN O!CanonAll(SubSeq(Collected, Len(pre) + 1, Len(Collected))) ELSE <<>>,
                        err |-> IF Accepted THEN NoErr ELSE Reported]]))
    [] Told = "calls" /\ ~ Done /\ Returned ->
         (ret.ok /\ O!Silent(ret.live))
         \/ PrintT(ToJson(Common @@ [op |-> "rule", rule |-> ret.r, at |-> ret.at, ind |-> ret.ind,
              buf |-> Append(O!CanonAll(SubSeq(buf, 1, ret.s0)), LeftOver), state |-> ret.s0,
              told |-> [r |-> IF ret.ok THEN "ok" ELSE "err", pre |-> TRUE, ind |-> indent,
                        o |-> IF ret.ok THEN c.o[ret.at + 1] ELSE 0, e |-> IF ret.ok THEN c.o[ret.q + 1] ELSE 0,
                        items |-> IF ret.ok THEN O!CanonAll(ret.live) ELSE <<>>, err |-> ret.f]]))
    [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================

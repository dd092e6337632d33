------------------------------- MODULE MCLines -------------------------------
(***************************************************************************)
(* Lists of items on lines of their own, in a small world: all texts over  *)
(* few characters.  Which of them are lists is said here in terms of what  *)
(* stands between two items; that is compared with the meaning of rules.   *)
(***************************************************************************)
EXTENDS PegBest, Universe, IOUtils, Json
O == INSTANCE Observe

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 4
A == 97
Comma == 44
p_ == <<S("p")>>
Item_ == Tag(S("a"), p_)

(* Kinds of items: an a; an a and the white space behind it; an a and what  *)
(* else is on the line; a line of a's with commas between; one that has     *)
(* blanks in front; maybe nothing at all.                                   *)
Kinds == { "alone", "blanks", "line", "commas", "lead", "maybe" }
RuleOf(kind) == CASE kind = "alone"  -> Item_
                  [] kind = "blanks" -> Seq2(<<Item_, Ws(TRUE)>>)
                  [] kind = "line"   -> Seq2(<<Item_, Ua(<<NL>>, TRUE, <<>>)>>)
                  [] kind = "commas" -> Sep(Item_, Tag(S(","), <<>>), FALSE, FALSE)
                  [] kind = "lead"   -> Seq2(<<Ws(TRUE), Item_>>)
                  [] kind = "maybe"  -> Opt(Item_)
Chars == {A, SP, NL, Comma, 8232}      \* a line separator is white space, but no line break

VARIABLES the_kind, the_text
Init == the_kind \in Kinds /\ the_text = <<>>
Next == Len(the_text) < Size /\ \E ch \in Chars : the_text' = Append(the_text, ch) /\ UNCHANGED the_kind

----------------------------------------------------------------------------
n_ == Len(the_text)
Positions(ch) == {i \in 1..n_ : the_text[i] = ch}
As == Positions(A)
Blank(i, j) == \A k \in i..j : IsWs(the_text[k])
Broken(i, j) == \E k \in i..j : the_text[k] = NL
FirstOn(i) == i = 1 \/ the_text[i - 1] = NL       \* nothing in front of it on its line
(* Pairs of a's with no a between. *)
Neighbours == {<<i, j>> \in As \X As : i < j /\ \A k \in As : k <= i \/ k >= j}
OnlyAs == \A i \in 1..n_ : the_text[i] = A \/ IsWs(the_text[i])
Good ==
  CASE the_kind = "alone" \/ the_kind = "maybe" ->
         OnlyAs /\ \A i \in As : FirstOn(i)
    [] the_kind = "blanks" ->
         (* blanks behind an item may go over to the next line *)
         /\ OnlyAs
         /\ \A i \in As : FirstOn(i) \/ \E j \in As : <<j, i>> \in Neighbours
         /\ \A x \in Neighbours : Broken(x[1], x[2])
    [] the_kind = "line" ->
         (* the first thing on every line that is not blank *)
         \A i \in 1..n_ : FirstOn(i) => LET ends == {k \in i..n_ : the_text[k] = NL}
                                           last == IF ends = {} THEN n_ ELSE (CHOOSE k \in ends : \A x \in ends : k <= x) - 1
                                       IN Blank(i, last) \/ the_text[i] = A
    [] the_kind = "commas" ->
         /\ \A i \in 1..n_ : the_text[i] \in {A, Comma} \/ IsWs(the_text[i])
         /\ \A i \in As : FirstOn(i) \/ the_text[i - 1] = Comma
         /\ \A i \in Positions(Comma) : i > 1 /\ i < n_ /\ the_text[i - 1] = A /\ the_text[i + 1] = A
    [] the_kind = "lead" ->
         OnlyAs /\ \A x \in Neighbours : Broken(x[1], x[2])

(* Every a is found that is the first of its line, or one of a list. *)
Found == CASE the_kind = "line" -> {i \in As : FirstOn(i)}
           [] OTHER -> As
At(i) == ByteLen(SubSeq(the_text, 1, i - 1))
TheItems == LET order == SelectSeq([i \in 1..n_ |-> i], LAMBDA i : i \in Found)
            IN [k \in 1..Len(order) |-> [t |-> "bool", n |-> S("p"), v |-> <<1>>, o |-> At(order[k]), e |-> At(order[k]) + 1]]

Rules == Numbered(<< Lines(RuleOf(the_kind), FALSE) >>)
Meaning == ParseIn(Ctx(Rules, the_text, 4, TRUE), 0)
Same == LET m == Meaning IN m.ok = Good /\ (Good => O!CanonAll(m.items) = TheItems)

(* The same list in a block: whenever nothing stands in front of an item,   *)
(* it makes no difference that the list is indented.                        *)
InBlock == ParseIn(Ctx(Numbered(<< Lines(RuleOf(the_kind), TRUE) >>), the_text, 4, FALSE), 0)
Flat_ == (the_kind # "blanks" /\ the_kind # "lead" /\ Good) => LET m == InBlock IN m.ok /\ O!CanonAll(m.items) = TheItems

Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ PrintT(ToJson([op |-> "parse", rules |-> Rules, t |-> the_text,
          told |-> IF Good THEN [r |-> "ok", items |-> TheItems] ELSE [r |-> "err", items |-> <<>>]]))
=============================================================================

----------------------------- MODULE MCLiterals -----------------------------
(***************************************************************************)
(* Quoted texts and numbers in a small world, built piece by piece in      *)
(* every way they can be written, so that what they mean is known from how *)
(* they were made.  A piece of a quoted text is a character written as it  *)
(* is, with a short escape, or with its number; or something wrong.        *)
(***************************************************************************)
EXTENDS PegBest, Universe, IOUtils, Json
O == INSTANCE Observe

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 3
Hex(n, up) == IF n < 10 THEN 48 + n ELSE IF up THEN 55 + n ELSE 87 + n
U(ch, up) == S("\\u") \o << Hex(ch \div 4096, up), Hex((ch \div 256) % 16, up), Hex((ch \div 16) % 16, up), Hex(ch % 16, up) >>

(* Pieces: [w: as written, v: what it means] and                            *)
(* [w: as written, why, from, to: what is wrong, and with which of it].     *)
Plain(ch) == [w |-> <<ch>>, v |-> <<ch>>]
Short(x, ch) == [w |-> S(x), v |-> <<ch>>]
Coded(ch, up) == [w |-> U(ch, up), v |-> <<ch>>]
Right_ == { Plain(97), Plain(117), Plain(10), Plain(233), Plain(128512),
            Short("\\\"", 34), Short("\\\\", 92), Short("\\/", 47), Short("\\b", 8), Short("\\f", 12), Short("\\n", 10), Short("\\r", 13), Short("\\t", 9),
            Coded(34, FALSE), Coded(92, TRUE), Coded(0, FALSE), Coded(233, TRUE), Coded(65535, FALSE), Coded(43981, TRUE), Coded(55295, FALSE), Coded(57344, TRUE) }
Bad(w, why, from, to) == [w |-> w, why |-> why, from |-> from, to |-> to]
Wrong == { Bad(S("\\x"), "ExpectedValidEscapeCharacter", 1, 2), Bad(S("\\U"), "ExpectedValidEscapeCharacter", 1, 2), Bad(<<92, 233>>, "ExpectedValidEscapeCharacter", 1, 2),
           Bad(S("\\u12g4"), "ExpectedHexadecimal", 4, 5), Bad(<<92, 117, 233>> \o S("123"), "ExpectedHexadecimal", 2, 3), Bad(S("\\u-123"), "ExpectedHexadecimal", 2, 3),
           Bad(S("\\ud800"), "ExpectedValidUnicode", 2, 5), Bad(S("\\uDFFF"), "ExpectedValidUnicode", 2, 5) }

VARIABLES what, pieces, number
(* number: [w: as written, at: where in it we are, neg, mant, frac: digits  *)
(* behind the point, eneg, e, us: with underscores, plus: starts with one,  *)
(* any: a digit was seen]                                                   *)
Number0 == [w |-> <<>>, at |-> "start", neg |-> FALSE, mant |-> 0, frac |-> 0, eneg |-> FALSE, e |-> 0, us |-> FALSE, plus |-> FALSE, any |-> FALSE]

Init == what \in {"text", "number"} /\ pieces = <<>> /\ number = Number0

IsWrong(x) == Len(x) > 0 /\ "why" \in DOMAIN x[Len(x)]
Piece == /\ what = "text" /\ Len(pieces) < Size /\ ~ IsWrong(pieces)
         /\ \E x \in Right_ \cup Wrong : pieces' = Append(pieces, x)
         /\ UNCHANGED <<what, number>>
NumberTo(ch, at, change) == number' = (change @@ [w |-> Append(number.w, ch), at |-> at]) @@ number
None_ == [at |-> ""]
Part_ ==
  /\ what = "number" /\ Len(number.w) < 3 * Size
  /\ \/ \E ch \in {43, 45} : number.at = "start" /\ NumberTo(ch, "sign", [neg |-> ch = 45, plus |-> ch = 43, w |-> <<ch>>])
     \/ \E d \in {0, 1, 9} : number.at \in {"start", "sign", "int"} /\ NumberTo(48 + d, "int", [mant |-> 10 * number.mant + d, any |-> TRUE])
     \/ number.at \in {"start", "sign", "int"} /\ NumberTo(46, "dot", [any |-> number.any])
     \/ \E d \in {0, 5} : number.at \in {"dot", "frac"} /\ NumberTo(48 + d, "frac", [mant |-> 10 * number.mant + d, frac |-> number.frac + 1, any |-> TRUE])
     \/ \E ch \in {101, 69} : number.at \in {"sign", "int", "dot", "frac"} /\ (ch = 101 \/ number.at = "int") /\ NumberTo(ch, "e", [any |-> number.any])
     \/ \E ch \in {43, 45} : number.at = "e" /\ NumberTo(ch, "esign", [eneg |-> ch = 45])
     \/ \E d \in {0, 2} : number.at \in {"e", "esign", "exp"} /\ number.e < 10 /\ NumberTo(48 + d, "exp", [e |-> 10 * number.e + d, any |-> TRUE])
     \/ number.any /\ number.at \in {"int", "frac", "exp"} /\ number.w[Len(number.w)] # 95 /\ NumberTo(95, number.at, [us |-> TRUE])
  /\ UNCHANGED <<what, pieces>>
Next == Piece \/ Part_

----------------------------------------------------------------------------
(* Quoted texts. *)
Inside == FoldLeft(LAMBDA t, x : t \o x.w, <<>>, pieces)
Means == FoldLeft(LAMBDA t, x : t \o x.v, <<>>, SelectSeq(pieces, LAMBDA x : "v" \in DOMAIN x))
Before_ == {<<>>, <<233>>, S("\\")}
After_ == {<<>>, S("\""), S("a"), S("\\\""), <<10, 34>>}
BadPiece == pieces[Len(pieces)]
BadAt == 1 + Len(Inside) - Len(BadPiece.w)

TextRight == what = "text" =>
  \A before \in Before_, after \in After_ :
    LET t == before \o <<QUOTE>> \o Inside \o <<QUOTE>> \o after
        p == Len(before)
        d == DecodeString(t, p, p + Len(Inside) + 2)
    IN /\ StringEnd(t, p) = p + Len(Inside) + 2
       /\ ~ IsWrong(pieces) => d = StrOk(Means)
       /\ IsWrong(pieces) => d = StrErr(BadPiece.why, p + BadAt + BadPiece.from, p + BadAt + BadPiece.to)
(* Without its last quote it is none, and neither if that is escaped. *)
TextNone == what = "text" =>
  /\ StringEnd(<<QUOTE>> \o Inside, 0) = -1
  /\ StringEnd(<<QUOTE>> \o Inside \o <<BACKSLASH, QUOTE>>, 0) = -1
  /\ StringEnd(Inside, 0) = -1

(* Numbers. *)
RECURSIVE Without0(_, _)
Without0(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Without0(m \div 10, e + 1) ELSE <<m, e>>
Value == Without0(number.mant, (IF number.eneg THEN 0 - number.e ELSE number.e) - number.frac)
NumWhy == CASE number.plus -> "Invalid"
            [] number.neg /\ number.at = "sign" -> "ExpectedDigits"
            [] number.at = "e" -> "Invalid"
            [] OTHER -> ""
NumberRight == (what = "number" /\ number.w # <<>>) =>
  \A before \in Before_, after \in {<<>>, S("a"), S(" 1"), S(":")} :
    LET t == before \o number.w \o after
        p == Len(before)
        q == p + Len(number.w)
        d == NumDecode(t, p, q, number.us)
    IN /\ NumberEnd(t, p, number.us) = q
       /\ NumberEnd(t, p, TRUE) = q
       /\ IF NumWhy = "" THEN d = NumOk(number.neg, Value[1], Value[2]) ELSE d = NumErr(NumWhy)
(* Where underscores are not allowed, the number ends in front of the first. *)
NumberStops == (what = "number" /\ number.us) =>
  NumberEnd(number.w, 0, FALSE) = FirstAt(number.w, 0, LAMBDA ch : ch = 95)

----------------------------------------------------------------------------
(* What is told: the literal, and what is behind it as a text of its own.   *)
Prop_ == << S("p") >>
Rest == << S("rest") >>
TheText == (IF what = "text" THEN <<QUOTE>> \o Inside \o <<QUOTE>> ELSE number.w) \o S(":")
TheRules == Numbered(<< Seq2(<<IF what = "text" THEN Quoted(TRUE, Prop_) ELSE Num(number.us, Prop_), Ua(<<>>, FALSE, Rest)>>) >>)
It(k, name, v, from, to) == [t |-> k, n |-> name, v |-> v, o |-> ByteLen(SubSeq(TheText, 1, from)), e |-> ByteLen(SubSeq(TheText, 1, to))]
Lit == Len(TheText) - 1
TheItems == << IF what = "text" THEN It("str", Prop_[1], Means, 0, Lit)
               ELSE It("f64", Prop_[1], <<IF number.neg THEN 1 ELSE 0, Value[1], Value[2]>>, 0, Lit),
               It("str", Rest[1], S(":"), Lit, Lit + 1) >>
TheErr == IF what = "text"
          THEN [k |-> BadPiece.why, x |-> <<>>, id |-> 1001] @@
               LET o == ByteLen(SubSeq(TheText, 1, BadAt + BadPiece.from)) IN
               [o |-> o, e |-> IF BadPiece.to = BadPiece.from + 1 THEN o + 1 ELSE ByteLen(SubSeq(TheText, 1, BadAt + BadPiece.to))]
          ELSE [k |-> NumWhy, o |-> 0, e |-> Lit, x |-> <<>>, id |-> 1001]
TheGood == IF what = "text" THEN ~ IsWrong(pieces) ELSE NumWhy = ""
(* The meaning of rules agrees with that. *)
Agrees == (what = "text" \/ number.w # <<>>) =>
  LET m == ParseIn(Ctx(TheRules, TheText, 4, TRUE), 0) IN
  m.ok = TheGood /\ IF TheGood THEN O!CanonAll(m.items) = TheItems ELSE m.f = TheErr

Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ (what = "number" /\ number.w = <<>>)
  \/ PrintT(ToJson([op |-> "parse", rules |-> TheRules, t |-> TheText,
       told |-> IF TheGood THEN [r |-> "ok", items |-> TheItems] ELSE [r |-> "err", err |-> TheErr]]))
=============================================================================

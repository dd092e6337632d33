----------------------------- MODULE Literals -----------------------------
(***************************************************************************)
(* Literal syntax of quoted texts and numbers: the scanners (how far does  *)
(* a literal reach) and the decoders (what does it mean).                  *)
(***************************************************************************)
EXTENDS Text, FiniteSets

----------------------------------------------------------------------------
(* Quoted text.  StringEnd(t, p): position after the closing quote of the   *)
(* literal starting at p, or -1 if there is none.                           *)

(* The next quote with an even number of backslashes right in front of it,  *)
(* counted from position `open` on.                                         *)
RECURSIVE StringClose(_, _, _)
StringClose(t, open, q) ==
  LET at == FirstAt(t, q, LAMBDA ch : ch = QUOTE)
      other == LastIn(t, open, at, LAMBDA ch : ch # BACKSLASH)
      slashes == at - (IF other = 0 THEN open ELSE other)
  IN IF at = Len(t) THEN -1
     ELSE IF slashes % 2 = 0 THEN at + 1
     ELSE StringClose(t, open, at + 1)

StringEnd(t, p) ==
  IF p < Len(t) /\ t[p + 1] = QUOTE THEN StringClose(t, p + 1, p + 1) ELSE -1

HexVal(c) ==
  IF c \in 48..57 THEN c - 48
  ELSE IF c \in 97..102 THEN c - 87
  ELSE IF c \in 65..70 THEN c - 55
  ELSE -1

EscapeOf(c) ==   \* -1: not an escape
  CASE c = 34  -> 34 [] c = 92 -> 92 [] c = 47 -> 47
    [] c = 98  -> 8  [] c = 102 -> 12
    [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
    [] OTHER -> -1

StrOk(v) == [ok |-> TRUE, v |-> v]
(* A decoding error: what, from position `from` to position `to`. *)
StrErr(why, from, to) == [ok |-> FALSE, why |-> why, from |-> from, to |-> to]

(* Four hexadecimals at position p.  The reader may look past the closing  *)
(* quote, but a quote is not a hexadecimal, so it can never succeed there. *)
Unicode4(t, p) ==
  LET avail == IF Len(t) - p < 4 THEN Len(t) - p ELSE 4
      bad == {i \in 1..avail : HexVal(t[p + i]) = -1}
  IN IF bad # {}
     THEN LET i == CHOOSE x \in bad : \A y \in bad : x <= y
          IN [ok |-> FALSE, why |-> "ExpectedHexadecimal", from |-> p + i - 1, to |-> p + i, one |-> TRUE]
     ELSE IF avail < 4
     THEN [ok |-> FALSE, why |-> "ExpectedFourHexadecimals", from |-> p, to |-> Len(t), one |-> FALSE]
     ELSE LET code == 4096 * HexVal(t[p+1]) + 256 * HexVal(t[p+2]) + 16 * HexVal(t[p+3]) + HexVal(t[p+4])
          IN IF code \in 55296..57343
             THEN [ok |-> FALSE, why |-> "ExpectedValidUnicode", from |-> p, to |-> p + 3, one |-> FALSE]
             ELSE [ok |-> TRUE, v |-> code]

(* Where escapes start among the characters p..q-1 (between the quotes); a  *)
(* backslash at the very end is none.                                       *)
EscapeEnd(t, i) == IF t[i + 2] = 117 THEN i + 6 ELSE i + 2    \* 117: u
Escapes(t, p, q) ==
  LET Next(s, i) == IF i < s.free THEN s ELSE [free |-> EscapeEnd(t, i), at |-> Append(s.at, i)]
      slashes == IF q <= p THEN <<>> ELSE SelectSeq([i \in 1..(q - p - 1) |-> p + i - 1], LAMBDA i : t[i + 1] = BACKSLASH)
  IN FoldLeft(Next, [free |-> p, at |-> <<>>], slashes).at

(* What the escape starting at i stands for. *)
Escape(t, i) ==
  LET d == t[i + 2] IN
  IF d = 117
  THEN LET u == Unicode4(t, i + 2) IN IF u.ok THEN StrOk(<<u.v>>) ELSE StrErr(u.why, u.from, u.to)
  ELSE IF EscapeOf(d) = -1 THEN StrErr("ExpectedValidEscapeCharacter", i + 1, i + 2)
  ELSE StrOk(<<EscapeOf(d)>>)

DecodeFrom(t, p, q) ==
  LET at == Escapes(t, p, q)
      n == Len(at)
      wrong == SelectInSeq(at, LAMBDA i : ~ Escape(t, i).ok)
      From(k) == IF k = 1 THEN p ELSE EscapeEnd(t, at[k - 1])
      last == IF q > From(n + 1) /\ t[q] = BACKSLASH THEN q - 1 ELSE q
  IN IF wrong # 0 THEN Escape(t, at[wrong])
     ELSE StrOk(FlattenSeq([k \in 1..(n + 1) |->
            IF k > n THEN Slice(t, From(k), last) ELSE Slice(t, From(k), at[k]) \o Escape(t, at[k]).v]))

DecodeString(t, p, end) == DecodeFrom(t, p + 1, end - 1)

----------------------------------------------------------------------------
(* Numbers.  The scanner accepts a run of number characters; the decoder   *)
(* then decides whether it is a number.                                    *)

NumChar(ch) == IsDigit(ch) \/ ch \in {43, 45, 46, 69, 95, 101}
NumScan0 == [on |-> TRUE, q |-> 0, sign |-> FALSE, dot |-> FALSE, sci |-> FALSE, esign |-> FALSE, digit |-> FALSE]

(* How many of the characters can belong to a number. *)
NumScan(chars, us) ==
  LET Next(s, c) ==
        LET s1 == [s EXCEPT !.sign = TRUE, !.q = s.q + 1] IN
        IF ~ s.on THEN s
        ELSE IF ~ s.sign /\ c \in {43, 45} THEN s1
        ELSE IF IsDigit(c) THEN [s1 EXCEPT !.digit = TRUE]
        ELSE IF s.digit /\ us /\ c = 95 THEN s1
        ELSE IF ~ s.dot /\ c = 46 THEN [s1 EXCEPT !.dot = TRUE]
        ELSE IF ~ s.sci /\ c \in {101, 69} /\ s.q > 0 THEN [s1 EXCEPT !.sci = TRUE]
        ELSE IF s.sci /\ ~ s.esign /\ c \in {43, 45} THEN [s1 EXCEPT !.esign = TRUE]
        ELSE [s EXCEPT !.on = FALSE]
  IN FoldLeft(Next, NumScan0, chars).q

(* Position after the number starting at p, or -1 if there is none. *)
NumberEnd(t, p, us) ==
  IF p >= Len(t) THEN -1
  ELSE LET n == NumScan(Slice(t, p, FirstAt(t, p, LAMBDA ch : ~ NumChar(ch))), us) IN IF n = 0 THEN -1 ELSE p + n

(* Decoded value: mant * 10^exp with neg, where mant has no trailing zero   *)
(* (zero is mant 0, exp 0) and at most nine digits: more are rounded.       *)
(* "huge" where the model makes no statement about the value: more digits   *)
(* than a double holds, a value close to the limits of doubles, or half-way *)
(* between two values of nine digits.                                       *)
NumOk(neg, mant, exp) == [ok |-> TRUE, huge |-> FALSE, neg |-> neg, mant |-> mant, exp |-> exp]
NumHuge == [ok |-> TRUE, huge |-> TRUE, neg |-> FALSE, mant |-> 0, exp |-> 0]
(* Beyond what a double can hold. *)
Endless == 1000000
NumEndless(neg) == NumOk(neg, 0, Endless)
NumErr(why) == [ok |-> FALSE, why |-> why]

RECURSIVE Normal(_, _, _)
Normal(neg, m, e) ==
  IF m = 0 THEN NumOk(neg, 0, 0)
  ELSE IF m % 10 = 0 THEN Normal(neg, m \div 10, e + 1)
  ELSE NumOk(neg, m, e)

(* Digits (and underscores) from p up to q: value or -1 for a foreign char, *)
(* -2 for more digits than the model can hold.                              *)
RECURSIVE DigitsVal(_, _, _, _, _)
DigitsVal(t, p, q, us, acc) ==
  IF p >= q THEN acc
  ELSE LET c == t[p + 1] IN
       IF us /\ c = 95 THEN DigitsVal(t, p + 1, q, us, acc)
       ELSE IF ~ IsDigit(c) THEN -1
       ELSE IF acc = -2 \/ acc > 20000000 THEN DigitsVal(t, p + 1, q, us, -2)
       ELSE DigitsVal(t, p + 1, q, us, 10 * acc + (c - 48))

(* The digits that count, from p up to q: no underscores, no leading zeros. *)
Digits(t, p, q) ==
  FoldLeft(LAMBDA ds, ch : IF ~ IsDigit(ch) \/ (ds = <<>> /\ ch = 48) THEN ds ELSE Append(ds, ch - 48),
           <<>>, SubSeq(t, p + 1, q))
Foreign(t, p, q, us) == \E i \in (p + 1)..q : ~ (IsDigit(t[i]) \/ (us /\ t[i] = 95))
OfDigits(ds, from, to) == FoldLeft(LAMBDA n, d : 10 * n + d, 0, [i \in 1..(to - from + 1) |-> IF from + i - 1 <= Len(ds) THEN ds[from + i - 1] ELSE 0])

(* First position in p..q-1 holding a character of the set, else q. *)
FindIn(t, p, q, set) == LET i == FirstAt(t, p, LAMBDA ch : ch \in set) IN IF i < q THEN i ELSE q
CountDigits(t, p, q) == Cardinality({i \in (p + 1)..q : IsDigit(t[i])})

NumDecode(t, p, q, us) ==
  LET neg == t[p + 1] = 45
      b == IF neg THEN p + 1 ELSE p
      ExpChars == {101, 69, 112, 80}
      \* integer part ends at the first '.' or exponent character
      i == FindIn(t, b, q, ExpChars \cup {46})
      hasDot == i < q /\ t[i + 1] = 46
      f == IF hasDot THEN FindIn(t, i + 1, q, ExpChars) ELSE i
      hasExp == f < q
      fracDigits == IF hasDot THEN CountDigits(t, i + 1, f) ELSE 0
      ds == Digits(t, b, f)                         \* of both parts
      n == Len(ds)
      eb == f + 1                                   \* after 'e'
      esign == hasExp /\ eb < q /\ t[eb + 1] \in {43, 45}
      eneg == esign /\ t[eb + 1] = 45
      ev == IF hasExp THEN DigitsVal(t, IF esign THEN eb + 1 ELSE eb, q, us, 0) ELSE 0
      e == (IF eneg THEN 0 - ev ELSE ev) - fracDigits
      next == OfDigits(ds, 10, 14)                  \* those that decide how to round
  IN IF neg /\ b >= q THEN NumErr("ExpectedDigits")
     ELSE IF Foreign(t, b, i, us) \/ (hasDot /\ Foreign(t, i + 1, f, us)) THEN NumErr("Invalid")
     ELSE IF hasExp /\ t[f + 1] \in {112, 80} THEN NumErr("Invalid")
     ELSE IF hasExp /\ eb >= q THEN NumErr("Invalid")
     ELSE IF ev = -1 THEN NumErr("Invalid")
     ELSE IF Len(Digits(t, b, i)) > 15 \/ fracDigits > 200 THEN NumHuge
     ELSE IF n = 0 THEN (IF ev = -2 \/ ev > 200 THEN NumHuge ELSE NumOk(neg, 0, 0))
     ELSE IF ev = -2 \/ ev > 1000 THEN (IF eneg THEN NumOk(neg, 0, 0) ELSE NumEndless(neg))
     ELSE IF ev > 200 THEN NumHuge
     ELSE IF n <= 9 THEN Normal(neg, OfDigits(ds, 1, n), e)
     ELSE IF next \in 49900..50100 THEN NumHuge
     ELSE Normal(neg, OfDigits(ds, 1, 9) + (IF next > 50000 THEN 1 ELSE 0), e + n - 9)
=============================================================================

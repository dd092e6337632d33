------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Documents.  A document is a sequence of Unicode code points (integers); *)
(* a position is the number of characters in front of it (0..Len(t)).      *)
(* The implementation counts in bytes of the UTF-8 encoding, so the spec   *)
(* carries a table of byte offsets and every observable offset is a byte   *)
(* offset taken from that table.                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

(* Number of bytes of a code point in UTF-8. *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

(* First byte of the UTF-8 encoding: the only thing the fast choice looks at. *)
FirstByte(c) ==
  IF c < 128 THEN c
  ELSE IF c < 2048 THEN 192 + (c \div 64)
  ELSE IF c < 65536 THEN 224 + (c \div 4096)
  ELSE 240 + (c \div 262144)

(* UTF-8. *)
Bytes(c) ==
  LET Low(x) == 128 + (x % 64) IN
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<FirstByte(c), Low(c)>>
  ELSE IF c < 65536 THEN <<FirstByte(c), Low(c \div 64), Low(c)>>
  ELSE <<FirstByte(c), Low(c \div 4096), Low(c \div 64), Low(c)>>
RECURSIVE Encoded(_)
Encoded(t) ==
  IF Len(t) <= 64 THEN FoldLeft(LAMBDA acc, ch : acc \o Bytes(ch), <<>>, t)
  ELSE LET m == Len(t) \div 2 IN Encoded(SubSeq(t, 1, m)) \o Encoded(SubSeq(t, m + 1, Len(t)))

(* Steps from s on, at most n, until a state is not to be continued.        *)
Sixteen == [i \in 1..16 |-> i]
Loop(Step(_), s, n) ==
  FoldLeft(LAMBDA x, i : IF ~ x.on THEN x ELSE FoldLeft(LAMBDA y, j : IF y.on THEN Step(y) ELSE y, x, Sixteen),
           s, [i \in 1..(n \div 16 + 1) |-> i])

(* Table of byte offsets: Offs(t)[p+1] is the byte offset of position p. *)
RECURSIVE OffsIn(_, _, _, _)
OffsIn(t, a, b, base) ==   \* of the positions a+1..b, when that of a is base
  IF b - a <= 64
  THEN Tail(FoldLeft(LAMBDA acc, ch : Append(acc, acc[Len(acc)] + Width(ch)), <<base>>, SubSeq(t, a + 1, b)))
  ELSE LET m == (a + b) \div 2
           l == OffsIn(t, a, m, base)
       IN l \o OffsIn(t, m, b, l[Len(l)])
Offs(t) == <<0>> \o OffsIn(t, 0, Len(t), 0)

ByteLen(t) == Offs(t)[Len(t) + 1]

(* White_Space property of Unicode. *)
IsWs(c) ==
  \/ c = 32
  \/ c \in 9..13
  \/ /\ c > 127
     /\ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

NL == 10
TAB == 9
SP == 32
QUOTE == 34
BACKSLASH == 92

IsDigit(c) == c \in 48..57

Has(set, c) == \E i \in 1..Len(set) : set[i] = c

(* Sub-sequence t[p+1..q] : the characters between positions p and q. *)
Slice(t, p, q) == SubSeq(t, p + 1, q)

(* Does s occur in t at position p?  *)
Matches(t, p, s) ==
  /\ p + Len(s) <= Len(t)
  /\ \A i \in 1..Len(s) : t[p + i] = s[i]

(* Position of the first character at or after p that passes the test, or    *)
(* the end.  (SelectInSubSeq gives an index of t, and 0 if there is none.)   *)
FirstAt(t, p, Test(_)) ==
  LET i == SelectInSubSeq(t, p + 1, Len(t), Test) IN IF i = 0 THEN Len(t) ELSE i - 1

(* Index of the last of the characters p+1..q that passes the test, or 0.   *)
LastIn(t, p, q, Test(_)) == IF q <= p THEN 0 ELSE SelectLastInSubSeq(t, p + 1, q, Test)

SkipWs(t, p)            == FirstAt(t, p, LAMBDA ch : ~ IsWs(ch))
UntilAny(t, p, any)     == FirstAt(t, p, LAMBDA ch : Has(any, ch))
UntilAnyOrWs(t, p, any) == FirstAt(t, p, LAMBDA ch : IsWs(ch) \/ Has(any, ch))

(***************************************************************************)
(* String literals of TLA+ to code points, so that grammars can be written *)
(* readably in specifications: S("abc") = <<97, 98, 99>>.                  *)
(***************************************************************************)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
=============================================================================

------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* A reader for JSON (RFC 8259), as far as metadata needs it: objects,     *)
(* strings, numbers, true and false.  The result is the tree as a list of  *)
(* items [t, n, v], nodes being bracketed by "start" and "end".            *)
(*                                                                         *)
(* A number is given by its digits: <<negative, exponent, d1, .., dn>>     *)
(* stands for d1..dn * 10^exponent, without zeros in front or behind.      *)
(***************************************************************************)
EXTENDS Text

JYes(q, v) == [ok |-> TRUE, q |-> q, v |-> v]
JNo == [ok |-> FALSE, q |-> 0, v |-> <<>>]

JsonWs(t, p) == FirstAt(t, p, LAMBDA ch : ch \notin {32, 9, 10, 13})

LOCAL At(t, p, ch) == p < Len(t) /\ t[p + 1] = ch

(* Strings. *)
LOCAL Hex(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87
                 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
LOCAL Hex4(t, p) ==
  IF p + 4 > Len(t) \/ \E i \in 1..4 : Hex(t[p + i]) = -1 THEN -1
  ELSE 4096 * Hex(t[p+1]) + 256 * Hex(t[p+2]) + 16 * Hex(t[p+3]) + Hex(t[p+4])
LOCAL Short(ch) == CASE ch = 34 -> 34 [] ch = 92 -> 92 [] ch = 47 -> 47 [] ch = 98 -> 8 [] ch = 102 -> 12
                     [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] OTHER -> -1

RECURSIVE JChars(_, _, _)
JChars(t, p, acc) ==
  LET q == FirstAt(t, p, LAMBDA ch : ch < 32 \/ ch \in {34, 92})
      got == acc \o Slice(t, p, q)
  IN IF q = Len(t) THEN JNo
     ELSE IF t[q + 1] = 34 THEN JYes(q + 1, got)
     ELSE IF t[q + 1] # 92 \/ q + 1 = Len(t) THEN JNo
     ELSE IF t[q + 2] # 117
     THEN IF Short(t[q + 2]) = -1 THEN JNo ELSE JChars(t, q + 2, Append(got, Short(t[q + 2])))
     ELSE LET a == Hex4(t, q + 2)
              pair == q + 8 <= Len(t) /\ t[q + 7] = 92 /\ t[q + 8] = 117
              b == IF pair THEN Hex4(t, q + 8) ELSE -1
          IN IF a = -1 \/ a \in 56320..57343 THEN JNo
             ELSE IF a \in 55296..56319
             THEN IF b \notin 56320..57343 THEN JNo
                  ELSE JChars(t, q + 12, Append(got, 65536 + 1024 * (a - 55296) + (b - 56320)))
             ELSE JChars(t, q + 6, Append(got, a))

JString(t, p) == IF At(t, p, 34) THEN JChars(t, p + 1, <<>>) ELSE JNo

(* Numbers. *)
LOCAL DigitsEnd(t, p) == FirstAt(t, p, LAMBDA ch : ~ IsDigit(ch))
LOCAL TrimFront(s) == LET i == SelectInSeq(s, LAMBDA ch : ch # 48) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
LOCAL LastNonZero(s) == SelectLastInSeq(s, LAMBDA ch : ch # 48)
LOCAL SmallInt(s) == FoldLeft(LAMBDA acc, ch : IF acc > 100000 THEN acc ELSE 10 * acc + (ch - 48), 0, s)

JNumber(t, p) ==
  LET neg == At(t, p, 45)
      b == IF neg THEN p + 1 ELSE p
      i == DigitsEnd(t, b)
      dot == At(t, i, 46)
      f == IF dot THEN DigitsEnd(t, i + 1) ELSE i
      sci == At(t, f, 101) \/ At(t, f, 69)
      signed == sci /\ (At(t, f + 1, 43) \/ At(t, f + 1, 45))
      eb == IF signed THEN f + 2 ELSE f + 1
      e == IF sci THEN DigitsEnd(t, eb) ELSE f
      ev == IF sci THEN (IF At(t, f + 1, 45) THEN 0 - SmallInt(Slice(t, eb, e)) ELSE SmallInt(Slice(t, eb, e))) ELSE 0
      frac == IF dot THEN Slice(t, i + 1, f) ELSE <<>>
      all == TrimFront(Slice(t, b, i) \o frac)
      n == LastNonZero(all)
      exp == ev - Len(frac) + (Len(all) - n)
      sign == IF neg THEN 1 ELSE 0
  IN IF i = b \/ (i > b + 1 /\ t[b + 1] = 48) \/ (dot /\ f = i + 1) \/ (sci /\ e = eb) THEN JNo
     ELSE JYes(e, IF n = 0 THEN <<sign, 0>> ELSE <<sign, exp>> \o [j \in 1..n |-> all[j] - 48])

(* Two such numbers are the same up to what a double can tell apart: one    *)
(* may be written with more digits, then it is rounded.                     *)
LOCAL RoundUp(d) ==   \* d + 1 in the last place; d without carry out
  LET i == SelectLastInSeq(d, LAMBDA x : x # 9)
  IN IF i = 0 THEN <<1>> \o [j \in 1..Len(d) |-> 0]
     ELSE [j \in 1..Len(d) |-> IF j < i THEN d[j] ELSE IF j = i THEN d[j] + 1 ELSE 0]
LOCAL Strip(e, d) ==
  LET n == SelectLastInSeq(d, LAMBDA x : x # 0) IN <<e + Len(d) - n, SubSeq(d, 1, n)>>
SameNumber(want, got) ==
  LET wd == SubSeq(want, 3, Len(want))
      gd == SubSeq(got, 3, Len(got))
      most == IF Len(wd) > 15 THEN Len(wd) ELSE 15
  IN IF wd = <<>> \/ gd = <<>> THEN wd = gd
     ELSE IF Len(gd) <= 16 \/ Len(gd) = Len(wd) THEN want = got
     ELSE LET cut == SubSeq(gd, 1, most)
              r == Strip(got[2] + Len(gd) - most, IF gd[most + 1] >= 5 THEN RoundUp(cut) ELSE cut)
          IN want[1] = got[1] /\ want[2] = r[1] /\ wd = r[2]

(* Objects. *)
RECURSIVE JObject(_, _), JMembers(_, _, _), JMember(_, _)
JMember(t, p) ==
  LET n == JString(t, p)
      c1 == JsonWs(t, n.q)
      v == JsonWs(t, c1 + 1)
      It(kind, val) == << [t |-> kind, n |-> n.v, v |-> val] >>
  IN IF ~ n.ok \/ ~ At(t, c1, 58) \/ v >= Len(t) THEN JNo
     ELSE IF t[v + 1] = 34
     THEN LET s == JString(t, v) IN IF s.ok THEN JYes(s.q, It("str", s.v)) ELSE JNo
     ELSE IF t[v + 1] = 123
     THEN LET o == JObject(t, v) IN
          IF o.ok THEN JYes(o.q, It("start", <<>>) \o o.v \o It("end", <<>>)) ELSE JNo
     ELSE IF Matches(t, v, S("true")) THEN JYes(v + 4, It("bool", <<1>>))
     ELSE IF Matches(t, v, S("false")) THEN JYes(v + 5, It("bool", <<0>>))
     ELSE LET m == JNumber(t, v) IN IF m.ok THEN JYes(m.q, It("f64", m.v)) ELSE JNo
JMembers(t, p, acc) ==
  LET m == JMember(t, p)
      q == JsonWs(t, m.q)
  IN IF ~ m.ok THEN JNo
     ELSE IF At(t, q, 125) THEN JYes(q + 1, acc \o m.v)
     ELSE IF At(t, q, 44) THEN JMembers(t, JsonWs(t, q + 1), acc \o m.v)
     ELSE JNo
JObject(t, p) ==
  LET q == JsonWs(t, p + 1) IN
  IF At(t, q, 125) THEN JYes(q + 1, <<>>) ELSE JMembers(t, q, <<>>)

(* What was written, put between braces. *)
JsonRead(out) ==
  LET t == <<123>> \o out \o <<125>>
      o == JObject(t, 0)
  IN IF o.ok /\ JsonWs(t, o.q) = Len(t) THEN o ELSE JNo

SameItem(a, b) ==
  /\ a.t = b.t /\ a.n = b.n
  /\ IF a.t = "f64" THEN SameNumber(a.v, b.v) ELSE a.v = b.v

SameTree(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : SameItem(want[i], got[i])

----------------------------------------------------------------------------
(* The writer, for checking the reader against it: items, separated.        *)
LOCAL HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JEscape(ch) == CASE ch = 34 -> <<92, 34>> [] ch = 92 -> <<92, 92>>
                 [] ch = 10 -> <<92, 110>> [] ch = 13 -> <<92, 114>> [] ch = 9 -> <<92, 116>>
                 [] ch < 32 /\ ch \notin {9, 10, 13} -> <<92, 117, 48, 48, HexDigit(ch \div 16), HexDigit(ch % 16)>>
                 [] OTHER -> <<ch>>
JQuote(s) == <<34>> \o FoldLeft(LAMBDA acc, ch : acc \o JEscape(ch), <<>>, s) \o <<34>>
RECURSIVE WriteFrom(_, _, _, _)
(* num: a function from numbers to their notation. *)
WriteFrom(d, i, first, num) ==
  IF i > Len(d) THEN <<10>>
  ELSE LET x == d[i]
           sepa == IF i = 1 THEN <<>> ELSE IF first \/ x.t = "end" THEN <<10>> ELSE <<44, 10>>
           body == CASE x.t = "start" -> JQuote(x.n) \o <<58, 123>>
                     [] x.t = "end" -> <<125>>
                     [] x.t = "bool" -> JQuote(x.n) \o <<58>> \o (IF x.v = <<1>> THEN S("true") ELSE S("false"))
                     [] x.t = "str" -> JQuote(x.n) \o <<58>> \o JQuote(x.v)
                     [] OTHER -> JQuote(x.n) \o <<58>> \o num[x.v]
       IN sepa \o body \o WriteFrom(d, i + 1, x.t = "start", num)
JsonWrite(d, num) == WriteFrom(d, 1, TRUE, num)
=============================================================================

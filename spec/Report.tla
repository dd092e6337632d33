------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Error reports: the message, then the lines the range of the error       *)
(* touches, the first one followed by a marker.                            *)
(***************************************************************************)
EXTENDS Text, FiniteSets

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

(* Lines as [from, to): positions of their characters. *)
LinesOf(t) ==
  LET breaks == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = NL)
      n == Len(breaks)
  IN [k \in 1..(n + 1) |-> [from |-> IF k = 1 THEN 0 ELSE breaks[k - 1], to |-> IF k > n THEN Len(t) ELSE breaks[k] - 1]]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Does the range o..e (bytes) touch the line, ends included? *)
Touches(offs, l, o, e) == offs[l.to + 1] >= o /\ offs[l.from + 1] <= e

(* Number of characters of the line in front of the place shown. *)
Column(offs, l, o) ==
  Cardinality({i \in l.from..(l.to - 1) : offs[i + 1] < Max2(o, offs[l.from + 1])})

(* At most 100 characters of a line, so that the place is among them. *)
WindowStart(j) == IF j > 75 THEN j - 50 ELSE 0

Place(i, j) == Decimal(i) \o <<44>> \o Decimal(j + 1) \o <<58, 32>>

ShownLine(t, offs, l, i, o) ==
  LET j == Column(offs, l, o)
      s == WindowStart(j)
  IN Place(i, j) \o Slice(t, l.from + s, Min2(l.from + s + 100, l.to)) \o <<NL>>

Marker(t, offs, l, i, o) ==
  LET j == Column(offs, l, o)
      s == WindowStart(j)
  IN Place(i, j) \o [k \in 1..(j - s) |-> IF t[l.from + s + k] = TAB THEN TAB ELSE SP] \o <<94, NL>>

(* The numbers of the lines that are touched. *)
Touched(offs, ls, o, e) == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : Touches(offs, ls[i], o, e))

Shown(t, offs, ls, o, e) ==
  LET touched == Touched(offs, ls, o, e)
  IN FlattenSeq([k \in 1..Len(touched) |->
       LET i == touched[k] IN
       ShownLine(t, offs, ls[i], i, o) \o (IF k = 1 THEN Marker(t, offs, ls[i], i, o) ELSE <<>>)])

(* The lines in front of the first one shown, from the last one that is not *)
(* blank on (or the first of all).                                          *)
Blank(t, l) == SkipWs(Slice(t, l.from, l.to), 0) = l.to - l.from
Before(t, ls, n) ==   \* n: number of the last line to consider
  LET there == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~ Blank(t, ls[i]))
  IN IF there = <<>> THEN 1 ELSE there[Len(there)]

Whole(t, ls, i, n) ==
  FlattenSeq([k \in 1..(n - i + 1) |->
    Decimal(i + k - 1) \o <<58, 32>> \o Slice(t, ls[i + k - 1].from, ls[i + k - 1].to) \o <<NL>>])

Context(t, offs, ls, o, e) ==
  LET touched == Touched(offs, ls, o, e)
      n == touched[1]
  IN IF touched = <<>> THEN <<>>
     ELSE IF n = 1 THEN <<>> ELSE Whole(t, ls, Before(t, ls, n - 1), n - 1)

----------------------------------------------------------------------------
(* What an error says. *)
Says(err) ==
  LET id == S("#") \o Decimal(err.id) \o S(", ")
      k == err.k
      number == S("Invalid number format: ")
      string == S("Invalid string format: ")
  IN CASE k = "ExpectedWhitespace" -> id \o S("Expected whitespace")
       [] k = "ExpectedNewLine" -> id \o S("Expected new line")
       [] k = "ExpectedSomething" -> id \o S("Expected something")
       [] k = "ExpectedNumber" -> id \o S("Expected number")
       [] k = "ExpectedDigits" -> id \o number \o S("Expected digits")
       [] k = "Invalid" -> id \o number \o S("Expected valid number format, for example `20.3e-4`")
       [] k = "ExpectedText" -> id \o S("Expected text")
       [] k = "EmptyTextNotAllowed" -> id \o S("Empty text not allowed")
       [] k = "ExpectedFourHexadecimals" -> id \o string \o S("Expected four hexadecimals xxxx 0-9A-F")
       [] k = "ExpectedHexadecimal" -> id \o string \o S("Expected hexadecimal 0-9A-F")
       [] k = "ExpectedValidUnicode" -> id \o string \o S("Expected valid unicode")
       [] k = "ExpectedValidEscapeCharacter" -> id \o string \o S("Expected valid escape character '\"\\/bfnrtu'")
       [] k = "ExpectedTag" -> id \o S("Expected: `") \o err.x \o S("`")
       [] k = "DidNotExpectTag" -> id \o S("Did not expect: `") \o err.x \o S("`")
       [] k = "InvalidRule" -> id \o S("Invalid rule: ") \o err.x
       [] k = "NoRules" -> S("No rules are specified")
       [] k = "ExpectedEnd" -> S("Expected end")
       [] k = "Conversion" -> S("Conversion, ") \o err.x

ReportMsg(t, msg, o, e) ==
  LET offs == Offs(t) ls == LinesOf(t) IN msg \o <<NL>> \o Shown(t, offs, ls, o, e)

ReportErr(t, err) ==
  LET offs == Offs(t)
      ls == LinesOf(t)
  IN S("Error ") \o Says(err) \o <<NL>>
     \o (IF err.k = "ExpectedTag" THEN Context(t, offs, ls, err.o, err.e) ELSE <<>>)
     \o Shown(t, offs, ls, err.o, err.e)
=============================================================================

------------------------------ MODULE MCReport ------------------------------
(***************************************************************************)
(* Error reports in a small world: every range in every short text, and in *)
(* texts whose lines are too long to be shown.  What is shown is compared  *)
(* with what is said here about lines and columns.                         *)
(***************************************************************************)
EXTENDS Report, IOUtils, Json

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 3
Chars == {97, 233, TAB, NL}
RECURSIVE Short(_)
Short(n) == IF n = 0 THEN {<<>>} ELSE LET s == Short(n - 1) IN s \cup {Append(t, ch) : t \in {x \in s : Len(x) = n - 1}, ch \in Chars}
Wide(n, ch) == [i \in 1..n |-> IF i % 10 = 0 THEN ch ELSE 97 + (i % 10)]
Long == { pre \o Wide(n, ch) \o post : pre \in {<<>>, <<NL>>, <<97, NL>>}, n \in {75, 76, 77, 100, 101, 126, 180}, ch \in {233, TAB}, post \in {<<>>, <<NL, 97>>} }

Edges == 0..3 \cup 73..79 \cup 99..103 \cup 124..128    \* where what is shown changes

VARIABLES the_text, the_from, the_to      \* positions in the text
Init == the_text \in Short(Size) \cup Long /\ the_from = -1 /\ the_to = -1
Next == /\ the_from = -1
        /\ the_from' \in {q \in 0..Len(the_text) : Len(the_text) <= Size \/ Size > 4 \/ q \in Edges \/ q >= Len(the_text) - 3}
        /\ the_to' \in {q \in the_from'..Len(the_text) : Len(the_text) <= Size \/ q <= the_from' + 1 \/ q = Len(the_text)}
        /\ UNCHANGED the_text
Given == the_from # -1

N == Len(the_text)
Msg == S("!")
At(p) == Offs(the_text)[p + 1]
Report_ == ReportMsg(the_text, Msg, At(the_from), At(the_to))

(* The report as rows. *)
RECURSIVE RowsFrom(_, _)
RowsFrom(t, acc) ==
  LET q == FirstAt(t, 0, LAMBDA ch : ch = NL)
  IN IF t = <<>> THEN acc ELSE RowsFrom(SubSeq(t, q + 2, Len(t)), Append(acc, SubSeq(t, 1, q)))
Rows == RowsFrom(Report_, <<>>)

(* Lines and columns of the text. *)
LineNo(p) == 1 + Cardinality({i \in 1..p : the_text[i] = NL})
Starts(p) == CHOOSE i \in 0..p : (i = 0 \/ the_text[i] = NL) /\ \A j \in (i + 1)..p : the_text[j] # NL
ColumnOf(p) == p - Starts(p) + 1
LineOf(p) == LET s == Starts(p) IN Slice(the_text, s, FirstAt(the_text, s, LAMBDA ch : ch = NL))

Prefix(i, j) == Decimal(i) \o S(",") \o Decimal(j) \o S(": ")
Begins(row, pre) == Len(row) >= Len(pre) /\ SubSeq(row, 1, Len(pre)) = pre

(* First comes the message, then one row per line that is touched, and a    *)
(* row with the marker.                                                     *)
RowPerLine == Given => Rows[1] = Msg /\ Len(Rows) = 2 + LineNo(the_to) - LineNo(the_from) + 1

(* The line of the place is named by its number and the column, and shown   *)
(* with the character at the place.                                         *)
NamesPlace == Given =>
  LET pre == Prefix(LineNo(the_from), ColumnOf(the_from))
      body == SubSeq(Rows[2], Len(pre) + 1, Len(Rows[2]))
      mark == SubSeq(Rows[3], Len(pre) + 1, Len(Rows[3]))
      k == Len(mark)                                       \* the marker is at its end
      line == LineOf(the_from)
  IN /\ Begins(Rows[2], pre) /\ Begins(Rows[3], pre)
     /\ k >= 1 /\ mark[k] = 94
     /\ \A i \in 1..(k - 1) : mark[i] = IF body[i] = TAB THEN TAB ELSE SP
     /\ Len(body) <= 100
     /\ ColumnOf(the_from) <= Len(line) => k <= Len(body) /\ body[k] = line[ColumnOf(the_from)]
     /\ ColumnOf(the_from) > Len(line) => k = Len(body) + 1
     /\ Len(line) <= 75 => body = line

(* Other lines are named in order, from their first columns on. *)
OtherLines == Given =>
  \A i \in 4..Len(Rows) : Begins(Rows[i], Prefix(LineNo(the_from) + i - 3, 1))

Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Err(k, x) == [k |-> k, o |-> At(the_from), e |-> At(the_to), id |-> 7, x |-> x]
Tell == Told = "" \/ ~ Given \/
  /\ PrintT(ToJson([op |-> "report", how |-> "msg", t |-> the_text, msg |-> Msg, err |-> Err("NoRules", <<>>),
                    told |-> [r |-> "ok", out |-> Report_]]))
  /\ \A k \in {"ExpectedTag", "ExpectedWhitespace"} :
       PrintT(ToJson([op |-> "report", how |-> "err", t |-> the_text, err |-> Err(k, IF k = "ExpectedTag" THEN <<233>> ELSE <<>>),
                      told |-> [r |-> "ok", out |-> ReportErr(the_text, Err(k, IF k = "ExpectedTag" THEN <<233>> ELSE <<>>))]]))
=============================================================================

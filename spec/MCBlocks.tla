------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* Blocks of lines in a small world.  What the tree of lines is, is said   *)
(* here in terms of columns only, line by line, without reading anything:  *)
(* aligned to its first line, a block is what stands on one column; not    *)
(* aligned, every block is one column deeper than the line it belongs to.  *)
(* That is compared with the meaning of rules.                             *)
(*                                                                         *)
(* A state is a list of lines.  A line is [lead: spaces and tabs, label],  *)
(* where a line with label 0 is blank.                                     *)
(***************************************************************************)
EXTENDS PegBest, Universe, IOUtils, Json
O == INSTANCE Observe

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 3

Leads == { <<>>, <<SP>>, <<SP, SP>>, <<TAB>>, <<SP, TAB>>, <<TAB, SP>> } \cup (IF Size > 3 THEN { <<SP, SP, SP>>, <<TAB, TAB>> } ELSE {})
Blanks == { <<>>, <<TAB, SP>> }
Tabs == {2, 4}
Bases == {0, 1}
Ends == { <<NL>>, <<13, NL>> }

VARIABLES the_lines, the_tab, aligned, the_base, the_end
vars_ == <<the_lines, the_tab, aligned, the_base, the_end>>
Init == the_lines = <<>> /\ the_tab \in Tabs /\ aligned \in Bool /\ the_base \in Bases /\ the_end \in Ends
Line(lead, label) == the_lines' = Append(the_lines, [lead |-> lead, label |-> label]) /\ UNCHANGED <<the_tab, aligned, the_base, the_end>>
Next == /\ Len(the_lines) < Size
        /\ \/ \E x \in Leads : Line(x, 97 + Len(the_lines))
           \/ (the_end = <<NL>> \/ Size > 3) /\ \E x \in Blanks : Line(x, 0)

----------------------------------------------------------------------------
(* The document. *)
TheText == FoldLeft(LAMBDA t, i : t \o (IF i = 1 THEN <<>> ELSE the_end) \o the_lines[i].lead
                                    \o (IF the_lines[i].label = 0 THEN <<>> ELSE <<the_lines[i].label>>),
                    <<>>, [i \in 1..Len(the_lines) |-> i])
(* Numbers of the lines with something on them. *)
Full == SelectSeq([i \in 1..Len(the_lines) |-> i], LAMBDA i : the_lines[i].label # 0)
n_ == Len(Full)
LeadOf(i) == the_lines[Full[i]].lead

(* Columns covered by spaces and tabs.  All characters here have one byte.  *)
Columns(lead) == FoldLeft(LAMBDA k, ch : k + (IF ch = TAB THEN the_tab ELSE 1), 0, lead)
Col(i) == Columns(LeadOf(i))

(* Where things are: start of the line, and of the text on it. *)
LineAt(k) == FoldLeft(LAMBDA s, i : s + Len(the_lines[i].lead) + (IF the_lines[i].label = 0 THEN 0 ELSE 1) + Len(the_end), 0, [i \in 1..(k - 1) |-> i])
LabelAt(i) == LineAt(Full[i]) + Len(LeadOf(i))

----------------------------------------------------------------------------
(* Aligned: a line belongs to the nearest line before it that is less deep. *)
(* It has to be deeper than the line before it, or stand on the column of a *)
(* block that is open there: that of an earlier line since which no line    *)
(* was less deep.                                                           *)
OpenAt(i, col) == \E j \in 1..(i - 1) : Col(j) = col /\ \A m \in j..(i - 1) : Col(m) >= col
AlignedGood == /\ n_ > 0 => Col(1) >= the_base
               /\ \A i \in 2..n_ : Col(i) > Col(i - 1) \/ OpenAt(i, Col(i))
AlignedParent(i) == LET less == {j \in 1..(i - 1) : Col(j) < Col(i)} IN IF less = {} THEN 0 ELSE CHOOSE j \in less : \A k \in less : k <= j

(* Not aligned: a depth is right for a line if its last space or tab is the *)
(* one that reaches it.  A line takes the greatest depth that is right, up  *)
(* to one more than that of the line before it.                             *)
RightFor(lead, d) == Columns(lead) >= d /\ (lead = <<>> \/ Columns(SubSeq(lead, 1, Len(lead) - 1)) < d)
Deepest(i, most) == LET ds == {d \in the_base..most : RightFor(LeadOf(i), d)} IN IF ds = {} THEN -1 ELSE CHOOSE d \in ds : \A x \in ds : x <= d
Depths == FoldLeft(LAMBDA ds, i : Append(ds, IF i = 1 THEN Deepest(1, the_base) ELSE IF ds[i - 1] = -1 THEN -1 ELSE Deepest(i, ds[i - 1] + 1)),
                   <<>>, [i \in 1..n_ |-> i])
PlainGood == \A i \in 1..n_ : Depths[i] # -1
PlainParent(i) == LET less == {j \in 1..(i - 1) : Depths[j] < Depths[i]} IN IF less = {} THEN 0 ELSE CHOOSE j \in less : \A k \in less : k <= j

Good == IF aligned THEN AlignedGood ELSE PlainGood
Parent(i) == IF aligned THEN AlignedParent(i) ELSE PlainParent(i)

(* i is a part of what belongs to j. *)
RECURSIVE Under(_, _)
Under(i, j) == i = j \/ (i > j /\ LET u == Parent(i) IN u # 0 /\ Under(u, j))

(* A node ends where the line begins that is the first outside, or with the *)
(* document.                                                                *)
Next_(j) == LET out == {i \in (j + 1)..n_ : ~ Under(i, j)} IN IF out = {} THEN 0 ELSE CHOOSE i \in out : \A k \in out : i <= k
EndOf(j) == IF Next_(j) = 0 THEN Len(TheText) ELSE LineAt(Full[Next_(j)])
It(k, name, v, from, to) == [t |-> k, n |-> S(name), v |-> v, o |-> from, e |-> to]
Ended(i) == SelectSeq([k \in 1..(i - 1) |-> i - k], LAMBDA j : IF i > n_ THEN Next_(j) = 0 ELSE Next_(j) = i)   \* innermost first
Closing(i) == [k \in 1..Len(Ended(i)) |-> It("end", "line", <<>>, LabelAt(Ended(i)[k]), EndOf(Ended(i)[k]))]
TheItems == FoldLeft(LAMBDA acc, i : acc \o Closing(i) \o
              << It("start", "line", <<>>, LabelAt(i), LabelAt(i)), It("str", "is", <<the_lines[Full[i]].label>>, LabelAt(i), LabelAt(i) + 1) >>,
              <<>>, [i \in 1..n_ |-> i]) \o Closing(n_ + 1)

----------------------------------------------------------------------------
(* line = [.._!:"is" .l+(line:"line")]   document = .l+(line:"line")        *)
Line_ == Node(1, <<S("line")>>)
Rules == Numbered(<< Seq2(<<Uaw(<<>>, FALSE, <<S("is")>>), Lines(Line_, TRUE)>>), Lines(Line_, TRUE) >>)
Context == Ctx(Rules, TheText, the_tab, aligned)
Meaning == ParseIn(Context, the_base)

SameTree_ == LET m == Meaning IN m.ok = Good /\ (Good => O!CanonAll(m.items) = TheItems)

(* Rejected documents are rejected at the first line that is wrong, or      *)
(* behind it (reported is what reaches furthest).                           *)
WrongFrom == IF aligned THEN CHOOSE i \in 1..n_ : (IF i = 1 THEN Col(1) < the_base ELSE ~ (Col(i) > Col(i - 1) \/ OpenAt(i, Col(i))))
                                                  /\ \A k \in 1..(i - 1) : IF k = 1 THEN Col(1) >= the_base ELSE Col(k) > Col(k - 1) \/ OpenAt(k, Col(k))
             ELSE CHOOSE i \in 1..n_ : Depths[i] = -1 /\ \A k \in 1..(i - 1) : Depths[k] # -1
RejectedThere == Good \/ Meaning.f.e >= LineAt(Full[WrongFrom])

Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
Tell == Told = "" \/ PrintT(ToJson([op |-> "parse", rules |-> Rules, t |-> TheText, tab |-> the_tab, align |-> aligned, ind |-> the_base,
          told |-> IF Good THEN [r |-> "ok", items |-> TheItems] ELSE [r |-> "err", items |-> <<>>]]))
=============================================================================

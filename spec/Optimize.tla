------------------------------ MODULE Optimize ------------------------------
(***************************************************************************)
(* The optimization of grammars: choices whose alternatives are told apart *)
(* by the first byte become a look-up.                                     *)
(*                                                                         *)
(* OptRule(r, refs, most) is the optimizer; `most` is how many alternatives*)
(* a table can hold.  MCOptimize checks that it changes nothing.           *)
(***************************************************************************)
EXTENDS Text

Unknown == -1

(* The byte a rule has to see first, if there is only one.  Only rules that *)
(* fail, and fail right there, on every other byte may have one.            *)
RECURSIVE UniqueByte(_, _)
UniqueByte(r, refs) ==
  CASE r.k = "text" -> QUOTE
    [] r.k = "tag" -> IF r.not \/ r.text = <<>> THEN Unknown ELSE FirstByte(r.text[1])
    [] r.k = "not" -> IF r.rule.k = "not" THEN UniqueByte(r.rule.rule, refs) ELSE Unknown
    [] r.k = "sel" -> IF Len(r.args) = 1 THEN UniqueByte(r.args[1], refs) ELSE Unknown
    [] r.k = "seq" -> IF r.args = <<>> THEN Unknown ELSE UniqueByte(r.args[1], refs)
    [] r.k \in {"sep", "rep"} -> IF r.opt THEN Unknown ELSE UniqueByte(r.rule, refs)
    [] r.k = "node" -> IF r.idx = 0 THEN Unknown ELSE UniqueByte(refs[r.idx], refs)
    [] OTHER -> Unknown

(* How many alternatives from the first on have different bytes. *)
RECURSIVE UniqueUpTo(_, _, _, _, _)
UniqueUpTo(args, refs, i, seen, most) ==
  IF i > Len(args) \/ i > most THEN i - 1
  ELSE LET b == UniqueByte(args[i], refs) IN
       IF b = Unknown \/ b \in seen THEN i - 1
       ELSE UniqueUpTo(args, refs, i + 1, seen \cup {b}, most)

RECURSIVE OptRule(_, _, _), OptAll(_, _, _, _)
OptAll(args, refs, i, most) ==
  IF i > Len(args) THEN <<>> ELSE <<OptRule(args[i], refs, most)>> \o OptAll(args, refs, i + 1, most)

OptRule(r, refs, most) ==
  CASE r.k = "seq" -> [r EXCEPT !.args = OptAll(r.args, refs, 1, most)]
    [] r.k = "sep" -> [r EXCEPT !.rule = OptRule(r.rule, refs, most), !.by = OptRule(r.by, refs, most)]
    [] r.k \in {"rep", "lines", "opt", "not"} -> [r EXCEPT !.rule = OptRule(r.rule, refs, most)]
    [] r.k = "sel" ->
         LET n == UniqueUpTo(r.args, refs, 1, {}, most)
             all == OptAll(r.args, refs, 1, most)
             bytes == [i \in 1..n |-> UniqueByte(r.args[i], refs)]
             table == [b \in {bytes[i] : i \in 1..n} |-> CHOOSE i \in 1..n : bytes[i] = b]
             fast(args, tail) == [k |-> "fast", args |-> args, table |-> table, tail |-> tail, id |-> r.id]
         IN IF n < 2 THEN [r EXCEPT !.args = all]
            ELSE IF n = Len(r.args) THEN fast(all, FALSE)
            ELSE fast(Append(SubSeq(all, 1, n), [k |-> "sel", args |-> SubSeq(all, n + 1, Len(all)), id |-> r.id]), TRUE)
    [] OTHER -> r

Optimized(refs, most) == [i \in 1..Len(refs) |-> OptRule(refs[i], refs, most)]

(***************************************************************************)
(* A grammar without what optimizing may do to it: look-ups are choices    *)
(* again, and the rest of a choice that was split is put back.             *)
(***************************************************************************)
RECURSIVE Flat(_), FlatAll(_, _)
FlatAll(args, i) == IF i > Len(args) THEN <<>> ELSE <<Flat(args[i])>> \o FlatAll(args, i + 1)
Flat(r) ==
  CASE r.k = "seq" -> [r EXCEPT !.args = FlatAll(r.args, 1)]
    [] r.k = "sep" -> [r EXCEPT !.rule = Flat(r.rule), !.by = Flat(r.by)]
    [] r.k \in {"rep", "lines", "opt", "not"} -> [r EXCEPT !.rule = Flat(r.rule)]
    [] r.k \in {"sel", "fast"} ->
         LET a == FlatAll(r.args, 1)
             n == Len(a)
             rest == n > 0 /\ a[n].k = "sel" /\ a[n].id = r.id
         IN [k |-> "sel", id |-> r.id, args |-> IF rest THEN SubSeq(a, 1, n - 1) \o a[n].args ELSE a]
    [] OTHER -> r
FlatRules(rules) == FlatAll(rules, 1)
=============================================================================

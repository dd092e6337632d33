------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Bounded worlds of grammars and documents for exhaustive checking.       *)
(***************************************************************************)
EXTENDS Text, FiniteSets

Ws(o) == [k |-> "ws", opt |-> o, id |-> 0]
Tag(x, p) == [k |-> "tag", text |-> x, not |-> FALSE, inv |-> FALSE, prop |-> p, id |-> 0]
NoTag(x, p) == [k |-> "tag", text |-> x, not |-> TRUE, inv |-> TRUE, prop |-> p, id |-> 0]
Ua(x, o, p) == [k |-> "ua", any |-> x, opt |-> o, prop |-> p, id |-> 0]
Uaw(x, o, p) == [k |-> "uaw", any |-> x, opt |-> o, prop |-> p, id |-> 0]
Quoted(e, p) == [k |-> "text", empty |-> e, prop |-> p, id |-> 0]
Num(u, p) == [k |-> "num", us |-> u, prop |-> p, id |-> 0]
Sel(a) == [k |-> "sel", args |-> a, id |-> 0]
Seq2(a) == [k |-> "seq", args |-> a, id |-> 0]
Sep(x, y, o, tr) == [k |-> "sep", rule |-> x, by |-> y, opt |-> o, trail |-> tr, id |-> 0]
Rep(x, o) == [k |-> "rep", rule |-> x, opt |-> o, id |-> 0]
Lines(x, ind) == [k |-> "lines", rule |-> x, indent |-> ind, id |-> 0]
Node(i, p) == [k |-> "node", name |-> <<110>>, prop |-> p, idx |-> i, id |-> 0]
Opt(x) == [k |-> "opt", rule |-> x, id |-> 0]
Not(x) == [k |-> "not", rule |-> x, id |-> 0]

(***************************************************************************)
(* Numbering as the meta language does it: parts before the whole, in the  *)
(* order they are written (a separator comes before what it separates).    *)
(* Num1(r, n) = <<numbered rule, last number used>>.                       *)
(***************************************************************************)
RECURSIVE Number(_, _), NumberAll(_, _, _, _)
NumberAll(args, i, n, acc) ==
  IF i > Len(args) THEN <<acc, n>>
  ELSE LET x == Number(args[i], n) IN NumberAll(args, i + 1, x[2], Append(acc, x[1]))
Number(r, n) ==
  CASE r.k \in {"sel", "seq"} ->
         LET x == NumberAll(r.args, 1, n, <<>>)
         IN << [r EXCEPT !.args = x[1], !.id = x[2] + 1], x[2] + 1 >>
    [] r.k = "sep" ->
         LET y == Number(r.by, n)
             x == Number(r.rule, y[2])
         IN << [r EXCEPT !.rule = x[1], !.by = y[1], !.id = x[2] + 1], x[2] + 1 >>
    [] r.k \in {"rep", "lines", "opt", "not"} ->
         LET x == Number(r.rule, n) IN << [r EXCEPT !.rule = x[1], !.id = x[2] + 1], x[2] + 1 >>
    [] OTHER -> << [r EXCEPT !.id = n + 1], n + 1 >>

Numbered(rules) == [i \in 1..Len(rules) |-> Number(rules[i], 1000 * i)[1]]

(* All rules one level above the given ones. *)
Bool == {TRUE, FALSE}
Above(s) ==
  {Sel(<<x, y>>) : x, y \in s} \cup {Seq2(<<x, y>>) : x, y \in s}
  \cup {Opt(x) : x \in s} \cup {Not(x) : x \in s}
  \cup {Rep(x, o) : x \in s, o \in Bool}
  \cup {Sep(x, y, o, tr) : x, y \in s, o, tr \in Bool}

Above1(s) ==   \* without the quadratic ones
  {Opt(x) : x \in s} \cup {Not(x) : x \in s} \cup {Rep(x, o) : x \in s, o \in Bool}

RECURSIVE TextsOf(_, _)
TextsOf(chars, n) ==
  IF n = 0 THEN {<<>>} ELSE LET s == TextsOf(chars, n - 1)
                           IN s \cup {Append(t, ch) : t \in {x \in s : Len(x) = n - 1}, ch \in chars}
=============================================================================

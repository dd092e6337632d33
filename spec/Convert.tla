------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* From the metadata of a grammar text to its rules.                       *)
(*                                                                         *)
(* Items are in observed form: [t, n, v, o, e], v a sequence of integers.  *)
(* Reading is done by position; reading something that is not there fails. *)
(* Along the way two things are threaded through, also by readings that    *)
(* fail: the last debug id given away and the list of ignored parts, each  *)
(* <<position, number of items>>, positions counted from 0.                *)
(***************************************************************************)
EXTENDS Text, FiniteSets

Ok(at, v, id, ign)  == [ok |-> TRUE, at |-> at, v |-> v, id |-> id, ign |-> ign]
Fails(id, ign)      == [ok |-> FALSE, at |-> 0, v |-> <<>>, id |-> id, ign |-> ign]

Here(d, i) == i <= Len(d)
IsStart(d, i, n) == Here(d, i) /\ d[i].t = "start" /\ d[i].n = n
IsEnd(d, i, n)   == Here(d, i) /\ d[i].t = "end" /\ d[i].n = n

(* Position after the item at i, or after the node starting there. *)
RECURSIVE SkipNode(_, _, _)
SkipNode(d, i, open) ==
  IF i > Len(d) THEN i
  ELSE LET n == CASE d[i].t = "start" -> open + 1
                  [] d[i].t = "end" -> IF open > 0 THEN open - 1 ELSE 0
                  [] OTHER -> open
       IN IF n = 0 THEN i + 1 ELSE SkipNode(d, i + 1, n)
Skip(d, i) == SkipNode(d, i, 0)

(* Debug ids too large for the integers of the model checker are -1.        *)
NextId(id) == IF id = -1 THEN -1 ELSE id + 1

RECURSIVE TruncPos(_, _)
TruncPos(m, e) ==
  IF m >= 2000000 /\ e >= 0 THEN -1
  ELSE IF m = 0 \/ e = 0 THEN m
  ELSE IF e > 0 THEN TruncPos(10 * m, e - 1) ELSE TruncPos(m \div 10, e + 1)
(* The number in front of a node, as a non-negative whole number.           *)
FirstId(v) ==
  LET n == IF v[1] = 2 THEN -1 ELSE IF v[1] = 1 THEN 0 ELSE TruncPos(v[2], v[3])
  IN IF n = -1 THEN -1 ELSE 1000 * n

----------------------------------------------------------------------------
(* Names used in the metadata. *)
NSequence == S("sequence")          NSelect == S("select")        NTag == S("tag")
NUaw == S("until_any_or_whitespace") NUa == S("until_any")        NWhitespace == S("whitespace")
NText == S("text")                  NNumber == S("number")        NReference == S("reference")
NOptional == S("optional")          NNot == S("not")              NSeparated == S("separated_by")
NLines == S("lines")                NRepeat == S("repeat")        NNode == S("node")
NString == S("string")              NRule == S("rule")            NBy == S("by")
NProperty == S("property")          NAny == S("any_characters")   NInverted == S("inverted")
NAllowEmpty == S("allow_empty")     NUnderscore == S("underscore") NAllowTrail == S("allow_trail")
NIndent == S("indent")              NName == S("name")            NRef == S("ref")
NValue == S("value")                NId == S("id")

Loops == {NSequence, NSelect, NTag, NUaw, NUa, NText, NNumber, NReference, NSeparated, NRepeat, NNode}

(* What a node of a kind may hold; anything else in it is ignored.          *)
Bools(k) == CASE k = NTag -> {NNot, NInverted} [] k \in {NUaw, NUa} -> {NOptional} [] k = NText -> {NAllowEmpty}
              [] k = NNumber -> {NUnderscore} [] k = NSeparated -> {NOptional, NAllowTrail} [] k = NRepeat -> {NOptional}
              [] OTHER -> {}
Strs(k) == IF k \in {NReference, NNode} THEN {NName} ELSE {}
Sets(k) == CASE k \in {NUaw, NUa} -> {NAny, NProperty} [] k = NTag -> {NText, NProperty}
             [] k \in {NText, NNumber, NReference} -> {NProperty} [] OTHER -> {}
RulesIn(k) == CASE k \in {NSequence, NSelect, NRepeat, NNode} -> {NRule} [] k = NSeparated -> {NBy, NRule} [] OTHER -> {}

(* Fields read so far: a function from names to values. *)
None == [x \in {} |-> 0]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Given(f, n) == n \in DOMAIN f
Flag(f, n, default) == IF Given(f, n) THEN f[n] ELSE default
AsProp(f, n) == IF Given(f, n) THEN <<f[n]>> ELSE <<>>
Truth(v) == v = <<1>>

----------------------------------------------------------------------------
(* A text given as value or by the name of a reusable string. *)
FindString(strs, n) ==
  LET found == {j \in 1..Len(strs) : strs[j][1] = n}
  IN IF found = {} THEN <<>> ELSE << strs[CHOOSE j \in found : \A l \in found : j <= l][2] >>

RECURSIVE SetLoop(_, _, _, _, _)
SetLoop(d, i, n, strs, text) ==
  IF IsEnd(d, i, n) THEN IF text = <<>> THEN Fails(0, <<>>) ELSE Ok(i + 1, text[1], 0, <<>>)
  ELSE IF Here(d, i) /\ d[i].t = "str" /\ d[i].n = NRef THEN SetLoop(d, i + 1, n, strs, FindString(strs, d[i].v))
  ELSE IF Here(d, i) /\ d[i].t = "str" /\ d[i].n = NValue THEN SetLoop(d, i + 1, n, strs, <<d[i].v>>)
  ELSE Fails(0, <<>>)
SetAt(d, i, n, strs) == SetLoop(d, i + 1, n, strs, <<>>)

----------------------------------------------------------------------------
(* Rules. *)
RECURSIVE RuleAt(_, _, _, _, _, _), KindAt(_, _, _, _, _), Fields(_, _, _, _, _, _, _, _)

(* A node n holding exactly one rule. *)
RuleAt(d, i, n, id, ign, strs) ==
  LET r == KindAt(d, i + 1, id, ign, strs) IN
  IF ~ IsStart(d, i, n) THEN Fails(id, ign)
  ELSE IF r.ok /\ IsEnd(d, r.at, n) THEN Ok(r.at + 1, r.v, r.id, r.ign)
  ELSE Fails(r.id, r.ign)

(* The rest of a node of kind k: its fields, and the rules in it in order.  *)
Fields(d, i, k, f, args, id, ign, strs) ==
  IF ~ Here(d, i) THEN Fails(id, ign)
  ELSE IF IsEnd(d, i, k) THEN Ok(i + 1, [f |-> f, args |-> args], id, ign)
  ELSE
    LET x == d[i]
        Ignored(id1, ign1) ==
          Fields(d, Skip(d, i), k, f, args, id1, Append(ign1, <<i - 1, Skip(d, i) - i>>), strs)
    IN IF x.t = "bool" /\ x.n \in Bools(k)
       THEN Fields(d, i + 1, k, Put(f, x.n, Truth(x.v)), args, id, ign, strs)
       ELSE IF x.t = "str" /\ x.n \in Strs(k)
       THEN Fields(d, i + 1, k, Put(f, x.n, x.v), args, id, ign, strs)
       ELSE IF x.t = "f64" /\ k = NNode /\ x.n = NId
       THEN Fields(d, i + 1, k, Put(f, x.n, x.v), args, id, ign, strs)
       ELSE IF x.t = "start" /\ x.n \in Sets(k)
       THEN LET s == SetAt(d, i, x.n, strs) IN
            IF s.ok THEN Fields(d, s.at, k, Put(f, x.n, s.v), args, id, ign, strs) ELSE Ignored(id, ign)
       ELSE IF x.t = "start" /\ x.n \in RulesIn(k)
       THEN \* the rule of a node is numbered from the number in front of it
            LET from == IF k = NNode THEN (IF Given(f, NId) THEN FirstId(f[NId]) ELSE 0) ELSE id
                r == RuleAt(d, i, x.n, from, ign, strs)
            IN IF r.ok THEN Fields(d, r.at, k, Put(f, x.n, r.v), Append(args, r.v), r.id, r.ign, strs)
               ELSE Ignored(r.id, r.ign)
       ELSE Ignored(id, ign)

(* One rule without the node around it. *)
KindAt(d, i, id, ign, strs) ==
  IF ~ (Here(d, i) /\ d[i].t = "start") THEN Fails(id, ign)
  ELSE LET k == d[i].n IN
  IF k \in Loops \ {NNode}
  THEN LET l == Fields(d, i + 1, k, None, <<>>, id, ign, strs)
           f == l.v.f
           n == NextId(l.id)
           Make(r) == Ok(l.at, r, n, l.ign)
           Lacks == Fails(l.id, l.ign)
       IN IF ~ l.ok THEN l
          ELSE CASE k = NSequence  -> Make([k |-> "seq", args |-> l.v.args, id |-> n])
                 [] k = NSelect    -> Make([k |-> "sel", args |-> l.v.args, id |-> n])
                 [] k = NTag       -> IF ~ Given(f, NText) THEN Lacks
                                      ELSE Make([k |-> "tag", text |-> f[NText], not |-> Flag(f, NNot, FALSE),
                                                 inv |-> Flag(f, NInverted, FALSE), prop |-> AsProp(f, NProperty), id |-> n])
                 [] k \in {NUa, NUaw} ->
                                      IF ~ Given(f, NAny) THEN Lacks
                                      ELSE Make([k |-> IF k = NUa THEN "ua" ELSE "uaw", any |-> f[NAny],
                                                 opt |-> Flag(f, NOptional, FALSE), prop |-> AsProp(f, NProperty), id |-> n])
                 [] k = NText      -> Make([k |-> "text", empty |-> Flag(f, NAllowEmpty, TRUE),
                                            prop |-> AsProp(f, NProperty), id |-> n])
                 [] k = NNumber    -> Make([k |-> "num", us |-> Flag(f, NUnderscore, FALSE),
                                            prop |-> AsProp(f, NProperty), id |-> n])
                 [] k = NReference -> IF ~ Given(f, NName) THEN Lacks
                                      ELSE Make([k |-> "node", name |-> f[NName], prop |-> AsProp(f, NProperty),
                                                 idx |-> 0, id |-> n])
                 [] k = NSeparated -> IF ~ (Given(f, NBy) /\ Given(f, NRule)) THEN Lacks
                                      ELSE Make([k |-> "sep", rule |-> f[NRule], by |-> f[NBy],
                                                 opt |-> Flag(f, NOptional, TRUE), trail |-> Flag(f, NAllowTrail, FALSE), id |-> n])
                 [] k = NRepeat    -> IF ~ (Given(f, NRule) /\ Given(f, NOptional)) THEN Lacks
                                      ELSE Make([k |-> "rep", rule |-> f[NRule], opt |-> f[NOptional], id |-> n])
  ELSE IF k = NWhitespace
  THEN IF Here(d, i + 1) /\ d[i + 1].t = "bool" /\ d[i + 1].n = NOptional /\ IsEnd(d, i + 2, k)
       THEN Ok(i + 3, [k |-> "ws", opt |-> Truth(d[i + 1].v), id |-> NextId(id)], NextId(id), ign)
       ELSE Fails(id, ign)
  ELSE IF k \in {NOptional, NNot, NLines}
  THEN LET ind == k = NLines /\ Here(d, i + 1) /\ d[i + 1].t = "bool" /\ d[i + 1].n = NIndent
           r == RuleAt(d, IF ind THEN i + 2 ELSE i + 1, NRule, id, ign, strs)
           n == NextId(r.id)
           made == IF k = NOptional THEN [k |-> "opt", rule |-> r.v, id |-> n]
                   ELSE IF k = NNot THEN [k |-> "not", rule |-> r.v, id |-> n]
                   ELSE [k |-> "lines", rule |-> r.v, indent |-> ind /\ Truth(d[i + 1].v), id |-> n]
       IN IF r.ok /\ IsEnd(d, r.at, k) THEN Ok(r.at + 1, made, n, r.ign) ELSE Fails(r.id, r.ign)
  ELSE Fails(id, ign)

----------------------------------------------------------------------------
(* Whole grammars: reusable strings, then nodes, and nothing else. *)
RECURSIVE StringFields(_, _, _)
StringFields(d, i, f) ==
  IF IsEnd(d, i, NString)
  THEN IF Given(f, NName) /\ Given(f, NText) THEN Ok(i + 1, <<f[NName], f[NText]>>, 0, <<>>) ELSE Fails(0, <<>>)
  ELSE IF Here(d, i) /\ d[i].t = "str" /\ d[i].n \in {NName, NText} THEN StringFields(d, i + 1, Put(f, d[i].n, d[i].v))
  ELSE Fails(0, <<>>)

RECURSIVE Strings(_, _, _)
Strings(d, i, acc) ==
  LET s == StringFields(d, i + 1, None) IN
  IF IsStart(d, i, NString) /\ s.ok THEN Strings(d, s.at, Append(acc, s.v)) ELSE [at |-> i, v |-> acc]

RECURSIVE Nodes(_, _, _, _, _, _)
Nodes(d, i, strs, rules, names, ign) ==
  IF ~ Here(d, i) THEN [ok |-> TRUE, rules |-> rules, names |-> names, ignored |-> ign]
  ELSE LET l == Fields(d, i + 1, NNode, None, <<>>, 0, ign, strs) IN
       IF IsStart(d, i, NNode) /\ l.ok /\ Given(l.v.f, NName) /\ Given(l.v.f, NRule)
       THEN Nodes(d, l.at, strs, Append(rules, l.v.f[NRule]), Append(names, l.v.f[NName]), l.ign)
       ELSE [ok |-> FALSE, rules |-> <<>>, names |-> <<>>, ignored |-> <<>>]

(* References point to the first node of that name. *)
FirstOf(names, n) ==
  LET found == {j \in 1..Len(names) : names[j] = n}
  IN IF found = {} THEN 0 ELSE CHOOSE j \in found : \A l \in found : j <= l

RECURSIVE Resolve(_, _), ResolveAll(_, _, _)
ResolveAll(args, i, names) ==
  IF i > Len(args) THEN <<>> ELSE <<Resolve(args[i], names)>> \o ResolveAll(args, i + 1, names)
Resolve(r, names) ==
  CASE r.k = "node" -> IF r.idx # 0 THEN r ELSE [r EXCEPT !.idx = FirstOf(names, r.name)]
    [] r.k \in {"seq", "sel"} -> [r EXCEPT !.args = ResolveAll(r.args, 1, names)]
    [] r.k = "sep" -> [r EXCEPT !.rule = Resolve(r.rule, names), !.by = Resolve(r.by, names)]
    [] r.k \in {"rep", "lines", "opt", "not"} -> [r EXCEPT !.rule = Resolve(r.rule, names)]
    [] OTHER -> r

RECURSIVE Balanced(_, _, _)
Balanced(d, i, open) ==
  IF i > Len(d) THEN open = <<>>
  ELSE IF d[i].t = "start" THEN Balanced(d, i + 1, Append(open, d[i].n))
  ELSE IF d[i].t = "end"
  THEN open # <<>> /\ open[Len(open)] = d[i].n /\ Balanced(d, i + 1, SubSeq(open, 1, Len(open) - 1))
  ELSE Balanced(d, i + 1, open)

Converted(d) ==
  IF ~ Balanced(d, 1, <<>>) THEN [ok |-> FALSE, rules |-> <<>>, names |-> <<>>, ignored |-> <<>>]
  ELSE LET s == Strings(d, 1, <<>>)
           n == Nodes(d, s.at, s.v, <<>>, <<>>, <<>>)
       IN IF n.ok THEN [n EXCEPT !.rules = ResolveAll(n.rules, 1, n.names)] ELSE n
=============================================================================

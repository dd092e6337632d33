------------------------------ MODULE Written ------------------------------
(***************************************************************************)
(* Grammar text for given rules: the other direction than Meta.  A layout  *)
(* says what stands where blanks may be (may) or have to be (must),        *)
(* between lines (line), and which texts have names (strings).             *)
(***************************************************************************)
EXTENDS Text

LOCAL EscapedAs(ch) == CASE ch = 34 -> <<92, 34>> [] ch = 92 -> <<92, 92>> [] ch = 10 -> S("\\n") [] ch = 9 -> S("\\t")
                         [] ch = 13 -> S("\\r") [] OTHER -> <<ch>>
AsText(x) == <<QUOTE>> \o FoldLeft(LAMBDA acc, ch : acc \o EscapedAs(ch), <<>>, x) \o <<QUOTE>>

LOCAL Digit(n) == <<48 + n>>
LOCAL Marked(o) == IF o THEN S("?") ELSE S("!")

(* A text, or its name. *)
AsSet(x, ly) ==
  LET named == {j \in 1..Len(ly.strings) : ly.strings[j][2] = x}
  IN IF named = {} THEN AsText(x) ELSE S("_") \o ly.strings[CHOOSE j \in named : TRUE][1]
AsProperty(p, ly) == IF p = <<>> THEN <<>> ELSE S(":") \o AsSet(p[1], ly)

RECURSIVE AsRule(_, _), AsRules(_, _, _)
AsRules(args, i, ly) ==
  AsRule(args[i], ly) \o IF i = Len(args) THEN ly.may ELSE ly.must \o AsRules(args, i + 1, ly)
AsRule(r, ly) ==
  CASE r.k = "ws" -> S(".w") \o Marked(r.opt)
    [] r.k = "tag" -> (IF r.not THEN S("!") ELSE <<>>) \o AsSet(r.text, ly)
                      \o (IF r.prop = <<>> THEN <<>> ELSE S(":") \o (IF r.inv THEN S("!") ELSE <<>>) \o AsSet(r.prop[1], ly))
    [] r.k = "ua" -> S("...") \o AsSet(r.any, ly) \o Marked(r.opt) \o AsProperty(r.prop, ly)
    [] r.k = "uaw" -> S("..") \o AsSet(r.any, ly) \o Marked(r.opt) \o AsProperty(r.prop, ly)
    [] r.k = "text" -> S(".t") \o Marked(r.empty) \o AsProperty(r.prop, ly)
    [] r.k = "num" -> S(".$") \o (IF r.us THEN S("_") ELSE <<>>) \o AsProperty(r.prop, ly)
    [] r.k = "node" -> r.name \o AsProperty(r.prop, ly)
    [] r.k = "seq" -> S("[") \o ly.may \o AsRules(r.args, 1, ly) \o S("]")
    [] r.k = "sel" -> S("{") \o ly.may \o AsRules(r.args, 1, ly) \o S("}")
    [] r.k = "sep" -> S(".s") \o Marked(r.opt) \o (IF r.trail THEN S(".") ELSE <<>>) \o S("(") \o ly.may
                      \o AsRule(r.by, ly) \o ly.must \o AsRule(r.rule, ly) \o ly.may \o S(")")
    [] r.k = "rep" -> S(".r") \o Marked(r.opt) \o S("(") \o AsRule(r.rule, ly) \o S(")")
    [] r.k = "lines" -> S(".l") \o (IF r.indent THEN S("+") ELSE <<>>) \o S("(") \o ly.may \o AsRule(r.rule, ly) \o ly.may \o S(")")
    [] r.k = "opt" -> S("?") \o AsRule(r.rule, ly)
    [] r.k = "not" -> S("!") \o AsRule(r.rule, ly)

(* What cannot be written: choices of nothing, a negated literal that is no *)
(* negated literal, empty texts where there has to be one, flags that come   *)
(* with a property only.                                                    *)
RECURSIVE Writable(_)
Writable(r) ==
  CASE r.k = "tag" -> r.text # <<>> /\ r.prop # << <<>> >> /\ (r.inv => r.prop # <<>>)
    [] r.k \in {"ua", "uaw", "text", "num", "node"} -> r.prop # << <<>> >>
    [] r.k \in {"seq", "sel"} -> r.args # <<>> /\ \A j \in 1..Len(r.args) : Writable(r.args[j])
    [] r.k = "sep" -> Writable(r.rule) /\ Writable(r.by)
    [] r.k = "not" -> Writable(r.rule) /\ ~ (r.rule.k = "tag" /\ ~ r.rule.not)
    [] r.k \in {"rep", "lines", "opt"} -> Writable(r.rule)
    [] OTHER -> TRUE

(* A whole grammar: strings, then one numbered node per line.  A name goes *)
(* on to the next blank: there has to be one.                              *)
Written(rules, names, ly) ==
  FoldLeft(LAMBDA acc, s : acc \o S("_") \o s[1] \o S(":") \o ly.may \o AsText(s[2]) \o ly.line, <<>>, ly.strings)
  \o FoldLeft(LAMBDA acc, i : acc \o Digit(i) \o ly.must \o names[i] \o ly.must \o S("=") \o ly.may \o AsRule(rules[i], ly) \o ly.line,
              <<>>, [i \in 1..Len(rules) |-> i])
=============================================================================

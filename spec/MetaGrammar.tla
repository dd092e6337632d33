---------------------------- MODULE MetaGrammar ----------------------------
(***************************************************************************)
(* The meta language, described with the rules of Peg: the same rules as   *)
(* the self description that is shipped (assets/self-syntax.txt), written  *)
(* down independently.                                                     *)
(***************************************************************************)
EXTENDS Universe

LOCAL Lit(s)        == Tag(S(s), <<>>)
LOCAL Set(s, n)     == Tag(S(s), <<S(n)>>)          \* "s":n
LOCAL Unset(s, n)   == [Tag(S(s), <<S(n)>>) EXCEPT !.inv = TRUE]       \* "s":!n
LOCAL Never(s)      == [Tag(S(s), <<>>) EXCEPT !.not = TRUE]           \* !"s"
LOCAL w             == Ws(TRUE)
LOCAL ww            == Ws(FALSE)
LOCAL Name(n)       == Uaw(S("[]{}():.!?\""), FALSE, <<S(n)>>)
LOCAL Ref(name, i, p) == [Node(i, p) EXCEPT !.name = S(name)]
LOCAL SkipTo(s)     == Ua(S(s), TRUE, <<>>)

LOCAL Property == Opt(Seq2(<<Lit(":"), Ref("set", 5, <<S("property")>>)>>))
LOCAL RuleAs(n) == Ref("rule", 22, <<S(n)>>)
LOCAL Form(name, i) == Ref(name, i, <<S(name)>>)
LOCAL RuleList == Sep(RuleAs("rule"), ww, FALSE, TRUE)

LOCAL MultiLineComment ==
  Seq2(<<Lit("/*"), SkipTo("*/"),
         Rep(Sel(<<Seq2(<<Never("*/"), Lit("*"), SkipTo("*/")>>),
                   Seq2(<<Ref("multi_line_comment", 1, <<>>), SkipTo("*/")>>),
                   Seq2(<<Lit("/"), SkipTo("*/")>>)>>), TRUE),
         Lit("*/")>>)
LOCAL Comment == Sel(<<Ref("multi_line_comment", 1, <<>>), Seq2(<<Lit("//"), Ua(<<NL>>, TRUE, <<>>)>>)>>)
LOCAL String == Seq2(<<Lit("_"), Name("name"), Lit(":"), w, Quoted(TRUE, <<S("text")>>)>>)
LOCAL NodeRule == Seq2(<<Num(FALSE, <<S("id")>>), ww, Never("_"), Never("."), Name("name"), w, Lit("="), w, RuleAs("rule")>>)
LOCAL SetRule == Sel(<<Quoted(FALSE, <<S("value")>>), Seq2(<<Lit("_"), Name("ref")>>)>>)
LOCAL SetOpt  == Sel(<<Quoted(TRUE, <<S("value")>>), Seq2(<<Lit("_"), Name("ref")>>)>>)
LOCAL OptRule == Sel(<<Set("?", "optional"), Unset("!", "optional")>>)
LOCAL Number_ == Seq2(<<Lit(".$"), Opt(Set("_", "underscore")), Property>>)
LOCAL TextR == Seq2(<<Lit(".t"), Sel(<<Set("?", "allow_empty"), Unset("!", "allow_empty")>>), Property>>)
LOCAL Reference == Seq2(<<Never("_"), Never("."), Name("name"), Property>>)
LOCAL Sequence_ == Seq2(<<Lit("["), w, RuleList, Lit("]")>>)
LOCAL Select_ == Seq2(<<Lit("{"), w, RuleList, Lit("}")>>)
LOCAL SeparatedBy == Seq2(<<Lit(".s"), Ref("opt", 7, <<>>), Opt(Set(".", "allow_trail")),
                            Lit("("), w, RuleAs("by"), ww, RuleAs("rule"), w, Lit(")")>>)
LOCAL TagRule == Seq2(<<Opt(Set("!", "not")), Ref("set", 5, <<S("text")>>),
                        Opt(Seq2(<<Lit(":"), Opt(Set("!", "inverted")), Ref("set", 5, <<S("property")>>)>>))>>)
LOCAL OptionalR == Seq2(<<Lit("?"), RuleAs("rule")>>)
LOCAL NotR == Seq2(<<Lit("!"), RuleAs("rule")>>)
LOCAL Whitespace_ == Seq2(<<Lit(".w"), Ref("opt", 7, <<>>)>>)
LOCAL Until(s) == Seq2(<<Lit(s), Ref("set_opt", 6, <<S("any_characters")>>), Ref("opt", 7, <<>>), Property>>)
LOCAL Repeat_ == Seq2(<<Lit(".r"), Ref("opt", 7, <<>>), Lit("("), RuleAs("rule"), Lit(")")>>)
LOCAL Lines_ == Seq2(<<Lit(".l"), Opt(Set("+", "indent")), Lit("("), w, RuleAs("rule"), w, Lit(")")>>)
LOCAL Rule_ == Sel(<<
  Form("whitespace", 17), Form("until_any_or_whitespace", 18), Form("until_any", 19), Form("lines", 21),
  Form("repeat", 20), Form("number", 8), Form("text", 9), Form("reference", 10), Form("sequence", 11),
  Form("select", 12), Form("separated_by", 13), Form("tag", 14), Form("optional", 15), Form("not", 16)>>)
LOCAL Document == Seq2(<<
  Lines(Seq2(<<w, Sel(<<Form("string", 3), Ref("comment", 2, <<>>)>>)>>), FALSE),
  Lines(Seq2(<<w, Sel(<<Form("node", 4), Ref("comment", 2, <<>>)>>)>>), FALSE),
  w>>)

LOCAL Rules == <<
  MultiLineComment, Comment, String, NodeRule, SetRule, SetOpt, OptRule, Number_, TextR, Reference,
  Sequence_, Select_, SeparatedBy, TagRule, OptionalR, NotR, Whitespace_, Until(".."), Until("..."),
  Repeat_, Lines_, Rule_, Document >>

MetaNames == << S("multi_line_comment"), S("comment"), S("string"), S("node"), S("set"), S("set_opt"), S("opt"),
  S("number"), S("text"), S("reference"), S("sequence"), S("select"), S("separated_by"), S("tag"), S("optional"),
  S("not"), S("whitespace"), S("until_any_or_whitespace"), S("until_any"), S("repeat"), S("lines"), S("rule"),
  S("document") >>

(* Nodes are numbered from 0. *)
MetaRules == [i \in 1..Len(Rules) |-> Number(Rules[i], 1000 * (i - 1))[1]]
=============================================================================

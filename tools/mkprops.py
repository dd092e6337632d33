#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
          state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
          mechanism=[dict(name=a,where=b) for a,b in mech],
          observe_at=list(observe),hook_needed=None)))
R="src/meta_rules/"
prop("C01","Documents are accepted, and read, exactly as the rules describe",
 "For every grammar and every document, parsing accepts the document if and only if the documented meaning of the rules (ordered choice, greedy repetition, separators with or without trailing, optional, negation, literal and character-set reads, whitespace, node references) matches it, and on acceptance the metadata consists of exactly the named items those rules describe, with the documented values and in document order. This covers every rule form in the rule table, alone and in any combination, and every flag of each form (optional/required, trailing allowed or not, inverted, negated, named or unnamed).",
 ["programs","inputs"],"every grammar built from the documented rule forms x every document",
 "The unit tests run each rule form on one or two documents; the meaning of combinations (choice inside repetition inside separator ...) over all documents is never sampled.",
 [R+"rule.rs",R+"sequence.rs",R+"select.rs",R+"separate_by.rs",R+"repeat.rs",R+"optional.rs",R+"not.rs",R+"tag.rs",R+"until_any.rs",R+"until_any_or_whitespace.rs",R+"whitespace.rs",R+"node.rs"],
 [("one parse function per rule form, dispatched by rule kind",R+"rule.rs"),("token buffer with a length cursor for backtracking","src/tokenizer.rs")],
 [("tokens","metadata collected so far","src/tokenizer.rs"),("position","byte offset in the document",R+"mod.rs")],
 ["result of parse: accepted or not, metadata names and values"])
prop("C02","Abandoned parse attempts leave no trace",
 "Whenever an alternative, an optional part, a further repetition or a negative look-ahead is tried and given up, the final result is the same as if that attempt had never been made: no metadata it produced remains, the input position is where it was before, and the indentation in force for the rest of the document is unchanged. What follows is parsed exactly as it would be without the attempt.",
 ["programs","inputs","histories"],"every grammar, every document, every sequence of failed attempts before the attempt that succeeds",
 "Stale metadata or state only shows when a partly successful attempt is followed by a particular shorter or longer successful one; the tests contain almost no partly successful failures.",
 ["src/tokenizer.rs",R+"select.rs",R+"fast_select.rs",R+"optional.rs",R+"repeat.rs",R+"separate_by.rs",R+"not.rs",R+"lines.rs",R+"mod.rs"],
 [("buffer is truncated to the live cursor before each write and at the end","src/tokenizer.rs, src/meta_rules/mod.rs"),("failed sub rules return the old cursor",R+"optional.rs")],
 [("cursor","how many items of the buffer are live","src/tokenizer.rs"),("current indention","required indentation",R+"indent_settings.rs")],
 ["metadata after a successful parse"])
prop("C03","Success means the whole document was read",
 "Parsing reports success only if the rules matched the document from its first to its last byte, for documents in any script and of any length. If anything is left over, parsing reports an error.",
 ["inputs","programs"],"every grammar x every UTF-8 document (all character widths), including any unread suffix",
 "The tests only use ASCII documents, where character counts and byte counts agree, and none leaves unread text.",
 [R+"mod.rs"],[("end-of-document check after the last rule",R+"mod.rs")],(),["Ok or Err of parse"])
prop("C04","Parsed metadata is a well-formed tree located in the document",
 "After every successful parse the metadata is balanced and properly nested with matching names, every item's source range lies inside the document on character boundaries, items appear in document order, and each node's range covers exactly what was read between its start and its end (hence all its children). Values agree with the text at their range: unquoted strings equal that slice of the document, matched literals are the slice they name.",
 ["programs","inputs"],"every grammar x every accepted document",
 "Tests check token values in a handful of documents and almost never their ranges or nesting.",
 [R+"node.rs",R+"mod.rs","src/tokenizer.rs",R+"until_any.rs",R+"tag.rs",R+"lines.rs"],
 [("start and end items are emitted around the sub rule with the consumed range",R+"node.rs")],(),["metadata vector with ranges"])
prop("C05","Parsing only appends to the caller's collected metadata",
 "Metadata already present in the caller's collection before a parse is left untouched, whether the parse succeeds or fails, and what a successful parse appends does not depend on what was there before. Several documents can therefore be parsed one after another into the same collection.",
 ["histories","inputs","programs"],"every grammar, document and prior content of the collection, over sequences of successful and failed parses",
 "Every existing test starts from an empty collection.",
 [R+"mod.rs","src/tokenizer.rs",R+"rule.rs"],[("the cursor starts at the current length of the collection",R+"mod.rs")],(),["the collection before and after parse"])
prop("C06","Making a grammar faster does not change what it means",
 "For every grammar and document, the optimized grammar accepts exactly the documents the unoptimized one accepts, yields identical metadata (names, values, ranges), and on rejection reports the failure at the same place. This holds for any number of alternatives, for alternatives starting with any character, at the end of the document, and when a grammar is optimized more than once.",
 ["programs","inputs"],"every grammar with choices of any width and nesting x every document",
 "Tests inspect the lookup table of four-way ASCII choices and parse one document; equivalence over grammars and documents, empty input, non-ASCII or >255 alternatives is not sampled.",
 ["src/optimize.rs",R+"fast_select.rs","src/lib.rs"],[("unique first byte table",'src/optimize.rs'),("table dispatch with optional tail",R+"fast_select.rs")],(),["parse results of a grammar before and after optimization"])
prop("C07","A rejected document is reported at the deepest failure, naming its rule",
 "When a document is rejected, the reported failure is, among all failures of the rules tried, the one that reached furthest into the document (its range ends furthest; the newest of equals; failures inside a negative look-ahead do not count), and its location lies inside the document. The error states what the rule that failed there expected, and its debug id is the id of that rule, so that id divided by 1000 is the number written in front of the node containing it.",
 ["programs","inputs"],"every grammar x every rejected document",
 "Tests check error positions for single rules; which of many failures across alternatives, repetitions and separators is reported is a global maximum over the whole run.",
 [R+"mod.rs",R+"select.rs",R+"sequence.rs",R+"separate_by.rs",R+"repeat.rs",R+"optional.rs",R+"lines.rs",R+"not.rs","src/parse_error.rs"],
 [("deepest error kept while going on, newest on ties",R+"mod.rs")],(),["error range, kind and debug id"])
prop("C08","Parsing always ends with a result",
 "For every grammar without left recursion and every document, parsing and compiling grammar text return a result or an error after finitely many steps: no endless loop, no crash. In particular a repetition or separator whose parts can match nothing still terminates.",
 ["programs","inputs"],"every non-left-recursive grammar (incl. rules matching the empty text) x every document; every text given as a grammar",
 "Termination and absence of panics quantify over all grammars and texts; no test uses a rule that matches empty text inside a repetition.",
 [R+"repeat.rs",R+"separate_by.rs",R+"lines.rs",R+"mod.rs","src/lib.rs","src/bootstrap/convert.rs"],
 [("loops end when the sub rule fails or stops making progress",R+"repeat.rs")],(),["return of parse / syntax"])
prop("C09","Grammar text is compiled faithfully",
 "Compiling grammar text yields exactly the rules written: each documented form with its flags, texts and names; reusable strings substituted; references resolved to the first node of that name; nodes in order with the last one used for documents; debug ids counted up from 1000 times the number before the node. Text that is not a valid grammar, including one using a string that is not defined, is rejected with an error rather than compiled to something else.",
 ["inputs","programs"],"every grammar text: any layout, comments, nesting, names, strings, numbers",
 "Tests compile about ten fixed grammars; faithful translation must hold for every text and every combination of flags.",
 ["src/lib.rs","src/bootstrap/convert.rs","src/bootstrap/rules.rs",R+"rule.rs"],
 [("meta rules parse the text, converter builds the rules","src/lib.rs"),("names replaced by indices after conversion",R+"rule.rs")],(),["compiled rules and names"])
prop("C10","The meta language describes itself",
 "The built-in rules for reading grammars and the shipped self-description compiled with them read every grammar text the same way, and compiling the self-description with its own compiled form reproduces it exactly. Grammars for the older syntax versions that are shipped reach the same fixed point.",
 ["programs","inputs"],"all grammar texts read by the built-in and by the self-described rules; all bootstrap generations",
 "The fixed point is only asserted in examples that are compiled but not run, and equality of the two readers over all grammar texts is not tested at all.",
 ["src/bootstrap/rules.rs","src/bootstrap/convert.rs","assets/self-syntax.txt"],
 [("hand written meta rules mirror the self syntax","src/bootstrap/rules.rs")],(),["metadata and rules from both readers"])
prop("C11","Indentation-sensitive lines follow block structure",
 "In an indentation-sensitive line list every line of one block starts at the same column, the column of its first line (or the configured indentation when alignment is off), a nested block is indented further than the line that owns it, and a line indented less ends the block and is offered to the enclosing one. A tab counts as the configured number of columns, blank lines are ignored, and once a block ends the indentation of the enclosing block is in force again.",
 ["inputs","programs","configurations"],"every layout of lines and nesting, every indentation setting (start column, alignment, tab width)",
 "Tests check six flat layouts and no nesting (the nested example is only compiled).",
 [R+"lines.rs",R+"indent_settings.rs",R+"mod.rs"],[("required indentation raised by one while a line is parsed and restored afterwards",R+"lines.rs")],
 [("indent","required column","src/meta_rules/indent_settings.rs")],["metadata tree of an indented document"])
prop("C12","Line lists never put two items on one line",
 "A line list reads items as long as each starts on a line of its own: blank lines and whitespace behind an item are ignored, an item may itself span lines, and a second item starting on the line where the previous one ended is an error located there. The list ends without an error at the first line its item rule does not match, leaving that line to the following rules.",
 ["inputs","programs"],"every sequence of lines, line breaks, whitespace and items (single and multi-line)",
 "Five fixed documents are tested.",
 [R+"lines.rs"],[("newline required between items",R+"lines.rs")],(),["range, metadata, error of a line list"])
prop("C13","Written JSON is valid and carries the same tree",
 "For any well-formed metadata with finite numbers, the written text between braces is a valid JSON object that decodes to exactly the same tree: same names, values, nesting and order, for all characters including quotes, backslashes and control characters. Empty nodes, siblings and deep nesting get correct separators.",
 ["inputs"],"every well-formed metadata sequence, all names and strings",
 "Three small trees and one string with three escapes are tested.",
 ["src/json.rs"],[("comma and escape state machine","src/json.rs")],(),["bytes written"])
prop("C14","Error reports show the failing place",
 "For every error and every text, the report names the error first and then shows the line containing its location with the right line and column number, followed by a marker line whose caret stands under the character at the error's start; very long lines are shown as a window around that place. For a missing literal the preceding lines back to the last non-blank one are shown as context.",
 ["inputs"],"every text (any line lengths, tabs, multi-byte characters, last line without newline) x every error location",
 "No test examines a complete report; only one checks that a phrase occurs in it.",
 ["src/parse_error_handler.rs","src/parse_error.rs"],[("line table with offsets; window and caret computation","src/parse_error_handler.rs")],(),["the report text"])
prop("C15","Search reads exactly the next item and finds the first match",
 "Reading the next item succeeds only if it has the requested kind and name, returns its value and moves past exactly that item; a failed read changes nothing and reports the location of the offending item (or of the last one read, at the end). Searching visits the first matching item after the current position, hands over a cursor placed right behind it, and leaves the original cursor where it was.",
 ["histories","inputs"],"every metadata sequence x every sequence of reads and searches",
 "Seven short scripts are tested; none checks state after a failed read or error locations.",
 ["src/search/src/lib.rs"],[("slice cursor plus last range","src/search/src/lib.rs")],
 [("data","unread items","src/search/src/lib.rs"),("range","location of last item","src/search/src/lib.rs")],["results, remaining data and range after each call"])
prop("C16","Converting metadata is exact and never gets stuck",
 "Reading metadata through the conversion cursor returns the next item only on matching kind and name, skips exactly one item or one whole node when ignoring, and reports consumed counts and source ranges that cover exactly the items consumed. Converting any metadata sequence, however malformed, to a grammar ends with a grammar or an error, and unknown items inside known ones are skipped as a whole and listed.",
 ["inputs","histories"],"every metadata sequence (balanced or not) x every sequence of cursor operations",
 "The converter is only exercised on metadata produced from well-formed grammar text.",
 ["src/bootstrap/convert.rs"],[("cursor over a slice with absolute offset","src/bootstrap/convert.rs"),("skip by node depth","src/bootstrap/convert.rs")],
 [("offset","items consumed","src/bootstrap/convert.rs")],["cursor results; converted rules; ignored list"])
prop("C17","Quoted texts and numbers are read by their literal syntax",
 "A quoted text is read up to its first unescaped closing quote and decoded by the JSON escapes; an empty text is refused where not allowed, and an invalid escape is reported at its place. A number is read as the longest run of number characters (underscores only where allowed), yields its decimal value, and a malformed one is reported over its range; text that starts neither is reported as missing.",
 ["inputs"],"every text at the reading position",
 "Six literals are tested; escapes, underscores, exponents and malformed literals are not.",
 [R+"text.rs",R+"number.rs"],[("scan then decode",R+"text.rs"),("scan then decode",R+"number.rs")],(),["range, value or error of a quoted text or number rule"])
prop("C18","Results depend only on the inputs",
 "Compiling and parsing give the same result for the same inputs no matter how often, in which order, on how many threads at once, or after which earlier successes and failures they are called, and a compiled grammar is never changed by using it. This includes the very first calls racing to prepare the built-in grammar.",
 ["schedules","histories"],"every interleaving of calls from several threads and every history of earlier calls, from a cold start",
 "The tests only check that the types may be shared between threads; no test calls anything concurrently or compares repeated results.",
 ["src/lib.rs",R+"mod.rs"],[("built-in grammar prepared once, then shared read-only","src/lib.rs"),("indentation settings copied per parse",R+"mod.rs")],
 [("built-in grammar","unprepared, or ready and immutable","src/lib.rs")],["results of all calls"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import re
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))

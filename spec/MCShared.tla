------------------------------ MODULE MCShared ------------------------------
(***************************************************************************)
(* What calls on several threads share: the built-in grammar of the meta   *)
(* language, prepared by whoever needs it first while the others wait;     *)
(* grammars, which are only looked at; and one collection of metadata,     *)
(* handed from call to call.  All interleavings of a few calls on a few    *)
(* threads, where a call takes several steps.                              *)
(*                                                                         *)
(* Kinds of calls: A, B: compiling a grammar text (they differ in one      *)
(* character); W: compiling a wrong one; P, Q: parsing the same document,  *)
(* aligned and not; I, J: parsing into the collection, J in vain.          *)
(***************************************************************************)
EXTENDS Meta, IOUtils, TLC, Json, FiniteSets

Size == IF "MBT_SIZE" \in DOMAIN IOEnv THEN atoi(IOEnv.MBT_SIZE) ELSE 1
Threads == 1..(IF Size > 2 THEN 3 ELSE 2)
Each == {1, 2}          \* how many calls a thread makes
Kinds == IF Size > 2 THEN {"A", "W", "I"} ELSE {"A", "B", "W", "P", "Q", "I", "J"}
Parts == 2                                        \* how many steps it takes to prepare the built-in grammar

TextOf(kind) == CASE kind = "A" -> S("1 a = .l+(\"a\":\"x\")") [] kind = "B" -> S("1 b = .l+(\"a\":\"x\")") [] OTHER -> S("1 a = .l+(\"a\":\"x\"")
U == INSTANCE Universe
X == << S("x") >>
TheRules == U!Numbered(<< U!Seq2(<<U!Tag(S("a"), X), U!Lines(U!Seq2(<<U!Tag(S("a"), X), U!Opt(U!Lines(U!Tag(S("b"), <<S("y")>>), TRUE))>>), TRUE)>>) >>)
DocOf(kind) == CASE kind = "J" -> S("a") \o <<NL>> \o S("  a") \o <<NL>> \o S("  c") [] OTHER -> S("a") \o <<NL>> \o S("a") \o <<NL>> \o S("  b")
AlignOf(kind) == kind # "Q"

(* What a call gives alone. *)
Compiles(kind) == kind \in {"A", "B", "W"}
Alone == [kind \in {"A", "B", "W", "P", "Q", "I", "J"} |->
  IF Compiles(kind)
  THEN LET e == Compiled(TextOf(kind)) IN [ok |-> e.ok, names |-> e.names, items |-> <<>>, o |-> e.o, e |-> e.e]
  ELSE LET m == MP!ParseIn(MP!Ctx(TheRules, DocOf(kind), 4, AlignOf(kind)), 0)
       IN [ok |-> m.ok, names |-> <<>>, items |-> IF m.ok THEN CanonAll(m.items) ELSE <<>>, o |-> IF m.ok THEN 0 ELSE m.f.o, e |-> IF m.ok THEN 0 ELSE m.f.e]]
ASSUME /\ Alone["A"].ok /\ Alone["B"].ok /\ ~ Alone["W"].ok /\ Alone["P"].ok /\ ~ Alone["Q"].ok /\ Alone["I"].ok /\ ~ Alone["J"].ok

VARIABLES scripts,    \* what each thread is to call
          pc,         \* where each thread is: "idle", "prepare", "wait", "busy"
          given,      \* what its calls gave so far
          once,       \* who prepares the built-in grammar: 0 nobody yet, -1 it is prepared
          built,      \* the parts of it that are there
          prepared,   \* how often it was begun
          common,     \* the collection
          owner,      \* who has the collection
          ended       \* the threads, in the order in which their calls returned
vars == <<scripts, pc, given, once, built, prepared, common, owner, ended>>

Lists == UNION {[1..n -> Kinds] : n \in Each}
Init == /\ scripts \in [Threads -> Lists]
        /\ pc = [t \in Threads |-> "idle"] /\ given = [t \in Threads |-> <<>>]
        /\ once = 0 /\ built = 0 /\ prepared = 0 /\ common = <<>> /\ owner = 0 /\ ended = <<>>

Finished(t) == Len(given[t]) = Len(scripts[t])
Now(t) == scripts[t][Len(given[t]) + 1]
Goes(t, to) == pc' = [pc EXCEPT ![t] = to]

(* A call begins: one that compiles needs the built-in grammar. *)
Begin(t) ==
  /\ pc[t] = "idle" /\ ~ Finished(t)
  /\ IF Compiles(Now(t))
     THEN CASE once = 0  -> Goes(t, "prepare") /\ once' = t /\ prepared' = prepared + 1
            [] once = -1 -> Goes(t, "busy") /\ UNCHANGED <<once, prepared>>
            [] OTHER     -> Goes(t, "wait") /\ UNCHANGED <<once, prepared>>
     ELSE Goes(t, "busy") /\ UNCHANGED <<once, prepared>>
  /\ IF Now(t) \in {"I", "J"} THEN owner = 0 /\ owner' = t ELSE UNCHANGED owner
  /\ UNCHANGED <<scripts, given, built, common, ended>>
Prepare(t) ==
  /\ pc[t] = "prepare"
  /\ IF built < Parts THEN built' = built + 1 /\ UNCHANGED <<pc, once>> ELSE Goes(t, "busy") /\ once' = -1 /\ UNCHANGED built
  /\ UNCHANGED <<scripts, given, prepared, common, owner, ended>>
Wake(t) ==
  /\ pc[t] = "wait" /\ once = -1 /\ Goes(t, "busy")
  /\ UNCHANGED <<scripts, given, once, built, prepared, common, owner, ended>>
(* With a part of the grammar missing, a text would be read in another way. *)
End(t) ==
  /\ pc[t] = "busy" /\ Goes(t, "idle")
  /\ given' = [given EXCEPT ![t] = Append(@, IF Compiles(Now(t)) /\ built < Parts THEN [ok |-> FALSE, names |-> <<>>, items |-> <<>>, o |-> 0, e |-> 0] ELSE Alone[Now(t)])]
  /\ IF owner = t THEN owner' = 0 /\ common' = (IF Alone[Now(t)].ok THEN common \o Alone[Now(t)].items ELSE common) ELSE UNCHANGED <<owner, common>>
  /\ ended' = Append(ended, t)
  /\ UNCHANGED <<scripts, once, built, prepared>>
Step == \E t \in Threads : Begin(t) \/ Prepare(t) \/ Wake(t) \/ End(t)
AllDone == \A t \in Threads : Finished(t) /\ pc[t] = "idle"
Next == Step \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

----------------------------------------------------------------------------
(* Every call gives what it gives alone. *)
AsAlone == \A t \in Threads : \A i \in 1..Len(given[t]) : given[t][i] = Alone[scripts[t][i]]
(* The built-in grammar is prepared at most once, and used when it is       *)
(* complete.                                                                *)
PreparedOnce == prepared <= 1 /\ \A t \in Threads : (pc[t] = "busy" /\ Compiles(Now(t))) => built = Parts
(* The collection holds what was parsed into it, in that order.             *)
CallsInto == LET step(s, t) == [s EXCEPT !.n[t] = @ + 1, !.items = IF scripts[t][s.n[t] + 1] = "I" THEN @ \o Alone["I"].items ELSE @]
             IN FoldLeft(step, [n |-> [t \in Threads |-> 0], items |-> <<>>], ended).items
Collected == common = CallsInto
OneOwner == owner # 0 => pc[owner] = "busy"
(* Nobody waits for ever. *)
AllReturn == <>AllDone

----------------------------------------------------------------------------
Told == IF "MBT_TELL" \in DOMAIN IOEnv THEN IOEnv.MBT_TELL ELSE ""
CallOf(kind) == IF Compiles(kind) THEN [do |-> "compile", t |-> TextOf(kind)]
                ELSE IF kind \in {"I", "J"} THEN [do |-> "into", g |-> 1, t |-> DocOf(kind)]
                ELSE [do |-> "parse", g |-> 1, t |-> DocOf(kind), align |-> AlignOf(kind)]
Shown(kind) == LET x == Alone[kind] IN
  IF Compiles(kind) THEN [r |-> IF x.ok THEN "ok" ELSE "err", names |-> x.names, err |-> IF x.ok THEN [k |-> "none"] ELSE [o |-> x.o, e |-> x.e]]
  ELSE [r |-> IF x.ok THEN "ok" ELSE "err", pre |-> TRUE, items |-> x.items, err |-> IF x.ok THEN [k |-> "none"] ELSE [o |-> x.o, e |-> x.e]]
Tell == Told = "" \/ ~ AllDone \/ ended[1] # 1 \/        \* the others are the same with other numbers
  PrintT(ToJson([op |-> "history", fresh |-> TRUE, grammars |-> <<TheRules>>, one |-> TRUE, order |-> ended,
                 threads |-> [t \in Threads |-> [i \in 1..Len(scripts[t]) |-> CallOf(scripts[t][i])]],
                 told |-> [r |-> "ok", same |-> TRUE, threads |-> [t \in Threads |-> [i \in 1..Len(scripts[t]) |-> Shown(scripts[t][i])]]]]))
=============================================================================

-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line program: what a run may report, given what it was      *)
(* given.  A run goes through phases                                       *)
(*    args -> config -> input -> proof -> read -> work -> write -> report  *)
(* each of which may end it; Outcomes is the set of reports it can end     *)
(* with.  A report is [code, s, v, t]: the exit status, the answer lines,  *)
(* whether an assignment was printed, and the transcript lines.            *)
(*                                                                         *)
(* Refused: exit status other than 0, 10 and 20, and no answer.            *)
(***************************************************************************)
EXTENDS Dimacs

Refused == "refused"     \* what was asked for cannot be done
Info == "info"           \* help or version: status 0, no answer
Sat == "sat"
Unsat == "unsat"
Unknown == "unknown"     \* no answer after an error: neither 10 nor 20
Verified == "verified"
NotVerified == "not-verified"

(* Configuration texts are taken in order: first the file, then the options  *)
(* as given.  Each either can be read (p) and sets options (s: option and     *)
(* whether the value is in range), or it cannot.  A later setting replaces an *)
(* earlier one; what counts is what is set in the end.                        *)
ConfigFine(c) ==
  /\ \A k \in DOMAIN c : c[k].p
  /\ LET last == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, w : (w[1] :> w[2]) @@ b, a, t.s), <<>>, c)
     IN \A o \in DOMAIN last : last[o]

(* e: [args, cfg, inp, prf, text (Read), truth \in {"T","F","?"}, lost]     *)
(* lost: the proof to be written is longer than what its target takes       *)
SolveOutcomes(e) ==
  CASE e.args = "bad" -> {Refused}
    [] e.args \in {"help", "version", "confhelp"} -> {Info}
    [] e.cfg = "bad" -> {Refused}
    [] e.inp # "ok" -> {Refused}
    [] e.prf = "bad" -> {Refused}
    [] ~e.text.ok /\ ~e.text.lax -> {Refused}
    [] e.lost -> {Refused, Unknown} \cup (IF e.text.lax THEN {Refused} ELSE {})
    [] OTHER -> (IF e.text.lax THEN {Refused} ELSE {})
                \cup (CASE e.truth = "T" -> {Sat} [] e.truth = "F" -> {Unsat} [] OTHER -> {Sat, Unsat})

(* e: [args, inp, prf, text, good \in {"T","F"}, lost]                      *)
CheckOutcomes(e) ==
  CASE e.args = "bad" -> {Refused}
    [] e.args = "help" -> {Info}
    [] e.inp # "ok" \/ e.prf = "bad" -> {Refused}
    [] ~e.text.ok /\ ~e.text.lax -> {Refused}
    [] e.good = "F" -> {NotVerified, Refused}
    [] e.lost -> {NotVerified, Refused}
    [] OTHER -> {Verified} \cup (IF e.text.lax THEN {Refused} ELSE {})

(* does the report x agree with outcome o? *)
Reports(x, o) ==
  CASE o = Refused -> x.code \notin {0, 10, 20} /\ x.s \in {<<>>, <<"UNKNOWN">>, <<"NOT VERIFIED">>} /\ x.v = <<>>
    [] o = Info -> x.code = 0 /\ x.s = <<>> /\ x.v = <<>>
    [] o = Sat -> x.code = 10 /\ x.s = <<"SATISFIABLE">> /\ x.v # <<>>
    [] o = Unsat -> x.code = 20 /\ x.s = <<"UNSATISFIABLE">> /\ x.v = <<>>
    [] o = Unknown -> x.code \notin {10, 20} /\ x.s \in {<<>>, <<"UNKNOWN">>} /\ x.v = <<>> /\ x.errors > 0
    [] o = Verified -> x.code = 0 /\ x.s = <<"VERIFIED">> /\ x.v = <<>>
    [] o = NotVerified -> x.code \notin {0, 10, 20} /\ x.s = <<"NOT VERIFIED">> /\ x.v = <<>>

(* -- the transcript of a checked proof -------------------------------------- *)
(* equal steps about clauses and variables are counted and shown when another *)
(* step follows; those at the very end may be left out                        *)
Group(k) == CASE k = "add" -> "ADD" [] k = "witness" -> "WITNESS" [] k = "sample" -> "SAMPLE" [] k = "hide" -> "HIDE"
              [] k = "observe" -> "OBSERVE" [] OTHER -> ""
Shown(t) == CASE t.k = "unsat" -> <<"UNSAT", 0>> [] t.k = "model" -> <<"SAT", 0>>
              [] t.k = "assume" -> <<"ASSUME", Len(t.c)>> [] t.k = "fail" -> <<"UNSAT WITH", Len(t.c)>>
Summary(T) ==
  LET step(a, t) ==
        LET g == Group(t.k)
            flushed == IF a.g = "" THEN a.q ELSE Append(a.q, <<a.g, a.n>>)
        IN IF g # "" /\ g = a.g THEN [a EXCEPT !.n = @ + 1]
           ELSE IF g # "" THEN [q |-> flushed, g |-> g, n |-> 1]
           ELSE [q |-> Append(flushed, Shown(t)), g |-> "", n |-> 0]
  IN FoldLeft(step, [q |-> <<>>, g |-> "", n |-> 0], T)
Transcripts(T) ==
  LET z == Summary(T) IN {z.q} \cup (IF z.g = "" THEN {} ELSE {Append(z.q, <<z.g, z.n>>)})
============================================================================

------------------------------- MODULE ProofIo -------------------------------
(***************************************************************************)
(* Proof output and its failures, as the user sees them.                    *)
(*                                                                         *)
(* A session writes its proof through a sink and shows it to processors,    *)
(* both of which may fail at any point.  The state is what has arrived at   *)
(* the sink, what a fault-free run of the same session had written by then, *)
(* the failures that happened and were not yet reported, whether one was    *)
(* reported, and whether the proof was closed.                              *)
(***************************************************************************)
EXTENDS Base

IoInit == [got  |-> "",        \* bytes accepted by the sink (hexadecimal)
           ref  |-> "",        \* bytes of the fault-free run
           er   |-> 0,         \* failed writes and flushes so far
           pf   |-> 0,         \* failed processor calls so far
           pend |-> {},        \* kinds of failure not yet reported
           rep  |-> FALSE,     \* a failure was reported
           shut |-> FALSE ]    \* the proof was closed without failure

Reports(r) == CASE r = "err:io" -> {"io"} [] r = "err:proc" -> {"proc"} [] OTHER -> {}
Answer(r) == r \in {"T", "F"}

R(v, s) == [v |-> v, s |-> s]
(* one call ev of the session, and the same call rv of the fault-free run;  *)
(* det: the fault-free run is reproducible                                  *)
IoStep(s, ev, rv, det) ==
  LET fresh == If(ev.er > s.er, "io") \cup If(ev.pf > s.pf, "proc")
      pend == s.pend \cup fresh
      t == [s EXCEPT !.got = @ \o ev.b, !.ref = @ \o rv.b, !.er = ev.er, !.pf = ev.pf, !.pend = pend]
      whole == det => t.got = t.ref
      late == If(s.shut /\ ~s.rep /\ (ev.b # "" \/ ev.er > s.er), "io-after-close")
      \* a report ends the proof
      told == [t EXCEPT !.pend = {}, !.rep = TRUE]
  IN CASE s.rep -> R(If(ev.o = "solve" /\ ev.r # "panic:dead", "io-answer-after-error"), t)
       [] ev.o \in {"solve", "close"} /\ pend # {} ->
            IF Reports(ev.r) \cap pend # {} THEN R(late, told)
            ELSE R(late \cup If(Reports(ev.r) = {}, "io-error-lost") \cup If(Reports(ev.r) # {}, "io-error-kind")
                   \cup If((Answer(ev.r) \/ ev.r = "ok") /\ ~whole, "io-incomplete"), told)
       [] ev.o = "solve" -> R(late \cup If(~Answer(ev.r) /\ ev.r # rv.r, "io-spurious")
                              \cup If(Answer(ev.r) /\ ~whole, "io-incomplete"), t)
       [] ev.o = "close" -> R(late \cup If(ev.r # "ok", "io-spurious") \cup If(ev.r = "ok" /\ ~whole, "io-incomplete"),
                              [t EXCEPT !.shut = TRUE])
       [] ev.o = "drop" -> R(late \cup If(ev.r # "ok", "io-crash") \cup If(pend = {} /\ ~whole, "io-incomplete"), t)
       [] OTHER -> R(late \cup If(pend = {} /\ ev.r # rv.r, "io-spurious"), t)
==============================================================================

------------------------------- MODULE IoTrace -------------------------------
(* Recorded sessions with faults against ProofIo. *)
EXTENDS ProofIo, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, s
vars == <<h, i, s>>
Init == h \in 1..Len(H) /\ i = 0 /\ s = IoInit
Stopped(labs) == PrintT(<<"VIOL", h, i + 1, labs>>) /\ i' = 1000000 /\ s' = IoInit
(* the fault-free run has the same calls, as long as both go on *)
Ref(x, k, ev) == IF k <= Len(x.ref) /\ x.ref[k].o = ev.o THEN x.ref[k] ELSE [o |-> ev.o, r |-> "-", b |-> ""]
Next ==
  /\ i < Len(H[h].ev)
  /\ h' = h
  /\ LET x == H[h]
         ev == x.ev[i + 1]
         same == i + 1 <= Len(x.ref) /\ x.ref[i + 1].o = ev.o
         r == IoStep(s, ev, Ref(x, i + 1, ev), x.det = 1 /\ same)
     IN IF r.v # {} THEN Stopped(r.v) ELSE i' = i + 1 /\ s' = r.s
View == <<h, i>>
Spec == Init /\ [][Next]_vars
==============================================================================

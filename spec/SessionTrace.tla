---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Whole sessions with proof processors attached.  Each recorded call       *)
(* carries the steps the processors were shown during it (ev.st, n = which  *)
(* processor).  The session is judged on three levels at once: the user's   *)
(* view (VarisatApi), the step sequence by itself (ProofLive), and the ties *)
(* between the two.                                                         *)
(***************************************************************************)
EXTENDS VarisatApi, ProofLive, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, s, p, n        \* n: number of processors attached
vars == <<h, i, s, p, n>>

(* all processors see the same steps, one after the other *)
SameStep(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a \ {"n"} : a[f] = b[f]
Alike(q, m) ==
  IF m = 0 THEN Len(q) = 0
  ELSE /\ Len(q) % m = 0
       /\ \A k \in 1..Len(q) :
            /\ q[k].n = (k - 1) % m
            /\ (k - 1) % m # 0 => SameStep(q[k], q[k - 1])
First(q) == SelectSeq(q, LAMBDA e : e.n = 0)
Kind(q, ks) == SelectSeq(q, LAMBDA e : e.k \in ks)
UC(e) == Rng(e.uc) \ {0}

(* what the steps of one call have to do with the call: s and p before it,  *)
(* t and u after it                                                         *)
Ties(ev, q, t, u) ==
  LET given == Kind(q, {"add", "dup", "taut"})
      asms == Kind(q, {"assum"})
      models == Kind(q, {"model"})
      fails == Kind(q, {"fail"})
      adds == ev.o \in {"add", "addf", "dimacs"} /\ ev.r = "ok"
      cached == s.res \in {"S", "A"}          \* nothing happened since the last solve
  IN \* clauses
     (IF adds /\ s.res # "N"
      THEN LET m == Len(given)
           IN If(m > Len(ev.cls), "tie-clause-extra")
              \cup If(m < Len(ev.cls) /\ ~u.unsat, "tie-clause-lost")
              \cup (IF m <= Len(ev.cls) THEN If(\E k \in 1..m : Rng(given[k].uc) # Rng(ev.cls[k]), "tie-clause") ELSE {})
      ELSE If(given # <<>>, "tie-clause-extra"))
     \* assumptions
     \cup (IF ev.o = "assume" /\ ev.r = "ok"
           THEN IF Len(asms) = 1 THEN If(Rng(asms[1].uc) # Rng(ev.l), "tie-assumptions")
                ELSE If(Len(asms) > 1 \/ s.res # "N", "tie-assumptions")
           ELSE If(asms # <<>>, "tie-assumptions"))
     \* answers
     \cup (IF ev.o = "solve" /\ ev.r = "T"
           THEN If(fails # <<>> \/ Len(models) > 1 \/ (models = <<>> /\ ~cached), "tie-model")
                \cup (IF Len(models) = 1 /\ ev.hm = 1 THEN If(UC(models[1]) # Rng(ev.m), "tie-model") ELSE {})
           ELSE If(models # <<>>, "tie-model"))
     \cup (IF ev.o = "solve" /\ ev.r = "F" /\ ev.hc = 1 /\ ev.c # <<>>
           THEN If(Len(fails) > 1 \/ (fails = <<>> /\ ~cached), "tie-core")
                \cup (IF Len(fails) = 1 THEN If(UC(fails[1]) # Rng(ev.c), "tie-core") ELSE {})
           ELSE If(fails # <<>>, "tie-core"))
     \cup (IF ev.o = "solve" /\ ev.r = "F" /\ ev.hc = 1 /\ ev.c = <<>> THEN If(~u.empty, "tie-unsat") ELSE {})
     \cup (IF u.unsat /\ ev.ob = "ok" /\ ev.o # "drop" THEN If(ev.hc = 0 \/ (ev.hc = 1 /\ ev.c # <<>>), "tie-unsat-unknown") ELSE {})
     \* variables: names and modes agree
     \cup (IF ev.r \in {"ok", "T", "F"} /\ ev.o # "drop"
           THEN LET names == Rng(u.um)
                    of(w) == CHOOSE g \in DOMAIN u.um : u.um[g] = w
                IN If(~(names \subseteq Visible(t)), "tie-var-alien")
                   \cup If(\E w \in Visible(t) \cap names : u.mode[of(w)] # t.mode[w], "tie-var-mode")
           ELSE {})

(* sessions over many variables: answers are judged by the derivation only *)
Big == "BIG" \in DOMAIN IOEnv
Start == IF Big THEN [ApiInit EXCEPT !.big = TRUE, !.taint = TRUE] ELSE ApiInit
Init == h \in 1..Len(H) /\ i = 0 /\ s = Start /\ p = LiveInit /\ n = 0
Stopped(labs) == PrintT(<<"VIOL", h, i + 1, labs>>) /\ i' = 1000000 /\ s' = ApiInit /\ p' = LiveInit /\ n' = 0
Next ==
  /\ i < Len(H[h].ev)
  /\ h' = h
  /\ LET ev == H[h].ev[i + 1]
         q == First(ev.st)
         r == Step(s, ev)
         l == LiveFold(p, q)
         m == IF ev.o = "processor" /\ ev.r = "ok" THEN n + 1 ELSE n
         labs == r.v \cup If(~Alike(ev.st, n), "tie-processors-differ") \cup l.v
                 \cup (IF r.v = {} /\ l.v = {} /\ n > 0 /\ ev.r \in {"ok", "T", "F", "err"} THEN Ties(ev, q, r.s, l.p) ELSE {})
     IN IF labs # {} THEN Stopped(labs)
        ELSE i' = i + 1 /\ s' = r.s /\ p' = l.p /\ n' = m
View == <<h, i>>
Spec == Init /\ [][Next]_vars
=============================================================================

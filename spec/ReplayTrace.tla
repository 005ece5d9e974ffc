----------------------------- MODULE ReplayTrace -----------------------------
(***************************************************************************)
(* Sessions that wrote a native proof, and the transcript a fresh checker   *)
(* derives from formula and proof.  The proof must be accepted and the      *)
(* transcript must be the session: the initial formula, then every clause,  *)
(* assumption set, mode change and answer in order.                         *)
(* An answer that was still current is not repeated.  The empty clause may  *)
(* be reported at any point, once, and only if the session ended            *)
(* contradictory.                                                           *)
(***************************************************************************)
EXTENDS VarisatApi, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, s, j, m    \* event, api state, transcript steps consumed, a solve was seen
vars == <<h, i, s, j, m>>

TR(x) == SelectSeq(x.tr, LAMBDA e : e.k # "unsat")
Unsats(x) == Len(x.tr) - Len(TR(x))
At(q, k) == IF k <= Len(q) THEN q[k] ELSE [k |-> "none", c |-> <<>>, v |-> 0]
Is(e, k, L) == e.k = k /\ Rng(e.c) = L
IsV(e, k, v) == e.k = k /\ e.v = v

(* the loader stops at the first contradiction among empty and unit clauses *)
Clash(cs, n) == \E a \in 1..n :
  \/ Rng(cs[a]) = {}
  \/ \E b \in 1..a : Cardinality(Rng(cs[a])) = 1 /\ Rng(cs[b]) = {-l : l \in Rng(cs[a])}
Adds(q, j0, cs) ==      \* how many of the clauses are listed next
  FoldLeft(LAMBDA n, k : IF n = k - 1 /\ Is(At(q, j0 + k), "add", Rng(cs[k])) THEN k ELSE n, 0, [k \in 1..Len(cs) |-> k])

R(v, n) == [v |-> v, j |-> n]
(* consume what the event must have left in the transcript *)
Eat(q, j0, ev, t) ==
  LET e == At(q, j0 + 1)
      ok == ev.r \in {"ok", "T", "F"}
      changed(want) == IF ev.v \in Visible(s) THEN s.mode[ev.v] # want ELSE want # "s"
  IN CASE ~ok -> R({}, j0)
       [] ev.o \in {"add", "addf", "dimacs"} ->
            LET n == Adds(q, j0, ev.cls)
            IN IF ~m THEN R({}, j0)
               ELSE IF s.res = "N" THEN R({}, j0)
               ELSE R(If(n < Len(ev.cls) /\ t.res # "N", "replay-clause"), j0 + n)
       [] ev.o = "assume" ->
            IF Is(e, "assume", Rng(ev.l)) THEN R({}, j0 + 1)
            ELSE R(If(s.res # "N", "replay-assumptions"), j0)
       [] ev.o = "solve" /\ ev.r = "T" ->
            IF Is(e, "model", Rng(ev.m)) THEN R({}, j0 + 1) ELSE R(If(s.res # "S", "replay-model"), j0)
       [] ev.o = "solve" /\ ev.r = "F" /\ ev.c # <<>> ->
            IF Is(e, "fail", Rng(ev.c)) THEN R({}, j0 + 1) ELSE R(If(s.res # "A", "replay-core"), j0)
       [] ev.o = "hide" -> R(If(~IsV(e, "hide", ev.v), "replay-hide"), j0 + 1)
       [] ev.o = "witness" -> IF changed("w") THEN R(If(~IsV(e, "witness", ev.v), "replay-witness"), j0 + 1) ELSE R({}, j0)
       [] ev.o = "sample" -> IF changed("s") THEN R(If(~IsV(e, "sample", ev.v), "replay-sample"), j0 + 1) ELSE R({}, j0)
       [] ev.o = "observe" ->
            R(If(\E k \in DOMAIN ev.l : ~IsV(At(q, j0 + k), "observe", ev.l[k]), "replay-observe"), j0 + Len(ev.l))
       [] OTHER -> R({}, j0)

Fin(x) ==
  LET contra == \E k \in DOMAIN x.ev : x.ev[k].hc = 1 /\ x.ev[k].c = <<>>
      said == \E k \in DOMAIN x.ev : x.ev[k].o = "solve" /\ x.ev[k].r = "F" /\ x.ev[k].c = <<>>
  IN If(Unsats(x) > 1, "replay-unsat-twice") \cup If(Unsats(x) = 1 /\ ~contra, "replay-unsat-alien")
     \cup If(said /\ Unsats(x) = 0 /\ ~\E k \in DOMAIN x.tr : x.tr[k].k = "add" /\ x.tr[k].c = <<>>, "replay-unsat-lost")

Big == "BIG" \in DOMAIN IOEnv
Start == IF Big THEN [ApiInit EXCEPT !.big = TRUE, !.taint = TRUE] ELSE ApiInit
Init == h \in 1..Len(H) /\ i = 0 /\ s = Start /\ j = 0 /\ m = FALSE
Halt == i' = 1000000 /\ s' = ApiInit /\ j' = 0 /\ m' = FALSE
Stopped(labs) == PrintT(<<"VIOL", h, i + 1, labs>>) /\ Halt
Judge(labs) == IF labs # {} THEN Stopped(labs) ELSE Halt

Next ==
  /\ i < 1000000
  /\ h' = h
  /\ LET x == H[h]
         q == TR(x)
         n0 == Adds(q, 0, x.f0)
         j0 == IF i = 0 THEN n0 ELSE j
         pre == IF i = 0
                THEN If(x.vk # "ok", "replay-refused")
                     \cup (IF x.vk = "ok" THEN If(n0 < Len(x.f0) /\ ~Clash(x.f0, n0), "replay-formula") ELSE {})
                ELSE {}
     IN IF pre # {} THEN Stopped(pre)
        ELSE IF i = Len(x.ev) THEN Judge(Fin(x) \cup If(j0 # Len(q), "replay-extra"))
        ELSE LET ev == x.ev[i + 1]
                 r == Step(s, ev)
                 c == IF r.v # {} THEN R({}, 0) ELSE Eat(q, j0, ev, r.s)
             IN IF r.v \cup c.v # {} THEN Stopped(r.v \cup c.v)
                ELSE i' = i + 1 /\ s' = r.s /\ j' = c.j /\ m' = (m \/ ev.o = "solve")
View == <<h, i>>
Spec == Init /\ [][Next]_vars
=============================================================================

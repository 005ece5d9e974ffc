-------------------------------- MODULE ApiMC --------------------------------
(* Closes VarisatApi with an arbitrary correct solver over a few variables.  *)
(*                                                                           *)
(* Mode "mc":  a ghost clause set g over abstract variables is carried along *)
(*   and the state's assignment sets are compared with it (S06, V01, V02),   *)
(*   the answers the specification accepts are compared with brute force     *)
(*   evaluation of g (S01..S06), and the rules that hold between successive  *)
(*   states are checked as action properties.                                *)
(* Mode "gen": every transition of the (normalised) state graph is printed   *)
(*   as a history reaching it; these histories are replayed on the solver.   *)
EXTENDS VarisatApi

CONSTANTS V,        \* user variables 1..V
          Depth,    \* bound on the number of calls
          Modes,    \* include hide / witness / sample
          Gen       \* print histories

VARIABLES s, g, h
vars == <<s, g, h>>

Lits == {v : v \in 1..V} \cup {-v : v \in 1..V}
ClauseSets == {C \in SUBSET Lits : Cardinality(C) <= 2}
AsSeq(S) == SetToSeq(S)

(* ghost semantics ---------------------------------------------------------*)
AbsLit(t, l) == IF l > 0 THEN t.um[l] ELSE -t.um[-l]
GVars(G) == UNION {{Abs(l) : l \in C} : C \in G}
GSatBy(G, m) == \A C \in G : \E l \in C : IF l > 0 THEN l \in m ELSE -l \notin m
GModels(G, D) == {m \in SUBSET (GVars(G) \cup D) : GSatBy(G, m)}
GSat(G) == GModels(G, {}) # {}

(* reactions ---------------------------------------------------------------*)
Obs(o, hm, m, hc, c) == [o |-> o, r |-> "ok", ob |-> "ok", hm |-> hm, m |-> m, hc |-> hc, c |-> c,
                         cls |-> <<>>, l |-> <<>>, v |-> 0, f |-> "-", cfg |-> <<>>]
(* some model of the visible variables, in user literals *)
AModel(t) ==
  LET ok == {m \in t.ms : \A l \in t.asm : t.um[Abs(l)] \in t.dom => LitTrue(t, m, l)}
      m == CHOOSE m \in ok : TRUE
  IN AsSeq({v \in Visible(t) : t.um[v] \in m \/ v \in t.asm}
           \cup {-v : v \in {v \in Visible(t) : ~(t.um[v] \in m \/ v \in t.asm)}})
Cores(t) == {C \in SUBSET t.asm : C # {} /\ ~SatWith(t, C)}
Now(t, o) == CASE t.res = "S" -> Obs(o, 1, AModel(t), 0, <<>>)
               [] t.res = "A" -> Obs(o, 0, <<>>, 1, AsSeq(t.core))
               [] t.res = "N" -> Obs(o, 0, <<>>, 1, <<>>)
               [] OTHER -> Obs(o, 0, <<>>, 0, <<>>)
NoRes(o) == Obs(o, 0, <<>>, 0, <<>>)
NRes(o) == Obs(o, 0, <<>>, 1, <<>>)

(* possible observations of each call; only the accepted ones are taken     *)
EvNewVar == {[Now(s, "newvar") EXCEPT !.v = k] : k \in {k \in 1..V : k \notin Visible(s)}}
EvAdd == UNION {
  {[e EXCEPT !.cls = <<AsSeq(C)>>] :
     e \in {NoRes("add"), NRes("add"), Now([s EXCEPT !.res = IF s.res = "S" THEN "U" ELSE s.res], "add")}}
  : C \in {C \in ClauseSets : Witnesses(s, VarsOf(C)) = {}}}
EvAssume == UNION {
  {[e EXCEPT !.l = AsSeq(C)] : e \in {NoRes("assume"), NRes("assume")}}
  : C \in {C \in ClauseSets : Witnesses(s, VarsOf(C)) = {}}}
EvSolve ==
  (IF SatWith(s, s.asm) THEN {[Obs("solve", 1, AModel(s), 0, <<>>) EXCEPT !.r = "T"]} ELSE {})
  \cup {[Obs("solve", 0, <<>>, 1, <<>>) EXCEPT !.r = "F"]}
  \cup {[Obs("solve", 0, <<>>, 1, AsSeq(C)) EXCEPT !.r = "F"] : C \in Cores(s)}
EvMode ==
  IF ~Modes THEN {} ELSE
  LET kinds == {"hide", "witness", "sample"}
      free == {v \in 1..V : v \notin VarsOf(s.asm)}
      old(v) == IF s.res = "S" /\ v \in Visible(s) THEN SelectSeq(AModel(s), LAMBDA l : Abs(l) # v)
                ELSE IF s.res = "S" THEN AModel(s) ELSE <<>>
  IN UNION {{[Now(s, k) EXCEPT !.v = v],
             [Now(s, k) EXCEPT !.v = v, !.m = old(v)]} : k \in kinds, v \in free}
EvObserve == {}

Events == EvNewVar \cup EvAdd \cup EvAssume \cup EvSolve \cup EvMode

GhostStep(ev, t) ==
  IF ev.o = "add" /\ s.res # "N" THEN
    LET L == Rng(ev.cls[1]) IN IF Tautology(L) THEN g ELSE g \cup {{AbsLit(t, l) : l \in L}}
  ELSE g

Show(l) == LET Cat(acc, x) == acc \o " " \o ToString(x) IN FoldLeft(Cat, "", l)
Text(ev) == CASE ev.o = "add" -> "add" \o Show(ev.cls[1])
              [] ev.o = "assume" -> "assume" \o Show(ev.l)
              [] ev.o \in {"hide", "witness", "sample"} -> ev.o \o " " \o ToString(ev.v)
              [] OTHER -> ev.o

Init == s = ApiInit /\ g = {} /\ h = <<>>
Next ==
  /\ Len(h) < Depth
  /\ \E ev \in Events :
       LET r == Step(s, ev)
       IN /\ r.v = {}
          /\ r.s.res # "END"
          /\ s' = r.s
          /\ g' = IF Gen THEN g ELSE GhostStep(ev, r.s)
          /\ h' = Append(h, Text(ev))
          /\ (Gen => PrintT(<<"GEN", h'>>))

Spec == Init /\ [][Next]_vars

(* normalised state for generation: abstract names do not matter *)
Norm == [vis |-> Visible(s), mode |-> s.mode, wm |-> s.wm,
         dom |-> {v \in Visible(s) : s.um[v] \in s.dom},
         ms |-> {{v \in Visible(s) : s.um[v] \in m} : m \in s.ms},
         asm |-> s.asm, res |-> s.res, core |-> s.core,
         atsol |-> {v \in Visible(s) : s.um[v] \in s.atsol},
         hid |-> s.hid > 0, ms0 |-> s.ms = {}]
GenView == Norm
McView == <<s, g, Len(h)>>   \* with the depth: the bound cuts the same states whatever the order of exploration

(* meta-properties ---------------------------------------------------------*)
TypeOK == /\ Visible(s) \subseteq 1..V /\ DOMAIN s.mode = Visible(s)
          /\ \A v, w \in Visible(s) : s.um[v] = s.um[w] => v = w
          /\ \A m \in s.ms : m \subseteq s.dom
          /\ s.res \in {"U", "S", "A", "N"}
(* the assignment sets are exactly the projection of the ghost clauses *)
Projection == (s.res # "N") =>
  s.ms = {m \cap s.dom : m \in GModels(g, s.dom)}
(* answers: accepted exactly when brute force over all clauses agrees *)
RefSat == \E m \in GModels(g, {s.um[v] : v \in VarsOf(s.asm)}) :
             \A l \in s.asm : LET a == AbsLit(s, l) IN IF a > 0 THEN a \in m ELSE -a \notin m
AnswersExact ==
  /\ (s.res \in {"U", "S", "A"}) => (SatWith(s, s.asm) <=> RefSat)
  /\ s.res = "S" => RefSat
  /\ s.res \in {"A", "N"} => ~RefSat
  /\ s.res = "N" => s.ms = {}
(* every state admits an answer to solve, and never both *)
SolveTotal ==
  LET acc == {ev.r : ev \in {e \in EvSolve : Step(s, e).v = {}}}
  IN acc = {IF RefSat /\ s.res # "N" THEN "T" ELSE "F"}
(* assume [] always restores the answer of the clauses alone *)
AssumeEmpty == LET t == [s EXCEPT !.asm = {}] IN s.res # "N" => (SatWith(t, {}) <=> GSat(g))

UnsatForever == [][s.res = "N" => s'.res = "N"]_vars
Monotone == [][(s.ms = {}) => (s'.ms = {})]_vars
FreshIds == [][\A v \in Visible(s') : v \notin Visible(s) => s'.um[v] \notin {s.um[w] : w \in Visible(s)} \cup s.dom]_vars
=============================================================================

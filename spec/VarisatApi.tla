----------------------------- MODULE VarisatApi -----------------------------
(***************************************************************************)
(* The semantic state machine of varisat's public solver interface.        *)
(*                                                                         *)
(* The state is what a user may rely on, independent of how the solver     *)
(* works: which user variables are visible, which abstract variable each   *)
(* of them denotes, the SET OF ALL ASSIGNMENTS of the visible constrained  *)
(* variables that the constraints added so far allow (hidden variables are *)
(* projected away), the current assumptions, and which answer is current.  *)
(*                                                                         *)
(* One event is one API call together with what could be observed of it.   *)
(* Step(s, ev) gives the successor state and the set of rules the observed *)
(* reaction breaks.  It is used three ways:                                *)
(*   ApiTrace  validates traces recorded from the real solver;             *)
(*   ApiMC     closes the machine with a nondeterministic correct solver   *)
(*             and checks the meta-properties with TLC;                    *)
(*   ApiGen    generates the histories that cover every transition of the  *)
(*             machine within bounds, to be replayed on the real solver.   *)
(***************************************************************************)
EXTENDS Base

(* state ------------------------------------------------------------------*)
ApiInit ==
  [ um    |-> <<>>,        \* visible user variable -> abstract variable
    mode  |-> <<>>,        \* visible user variable -> "s" (sampling) / "w" (witness)
    wm    |-> 0,           \* largest user variable ever used
    hid   |-> 0,           \* number of hide operations so far
    dom   |-> {},          \* constrained abstract variables
    ms    |-> {{}},        \* allowed assignments (sets of true variables) of dom
    asm   |-> {},          \* assumed user literals
    res   |-> "U",         \* U unknown, S satisfiable, A unsat under assumptions, N unsat
    core  |-> {},          \* core offered (res = "A")
    atsol |-> {},          \* abstract variables visible at the last solve
    opq   |-> {},          \* abstract variables made visible by observation
    nobs  |-> 0,           \* number of variables observed so far
    jobs  |-> FALSE,       \* the last call was an observation
    taint |-> FALSE,       \* an observed variable was constrained
    maybe |-> {},          \* user variables mentioned only by ignored clauses (res = "N")
    added |-> FALSE,       \* a clause was added
    made  |-> FALSE,       \* a variable was created through new_var
    solved|-> FALSE,       \* solve was called
    big   |-> FALSE,       \* too many variables for ms: only models are judged, by cl
    cl    |-> {},          \* the clauses (sets of signed abstract variables) not mentioning hidden variables
    fmt   |-> "-",         \* proof format in use
    closed|-> FALSE,
    cfg   |-> <<950, 999, 15000, 10000, 128>> ]

Visible(s) == DOMAIN s.um
NoRestriction(f, S) == [x \in S |-> f[x]]

(* Make the user variables V usable: everything up to the largest of them  *)
(* that was never used before comes into existence, and hidden ones are    *)
(* replaced by fresh ones.                                                 *)
Touch(s, V) ==
  IF V \subseteq DOMAIN s.um THEN s ELSE
  LET top == IF MaxOf(V) > s.wm THEN MaxOf(V) ELSE s.wm
      new == {k \in 1..top : k > s.wm} \cup (V \ Visible(s))
      all == Visible(s) \cup new
  IN [s EXCEPT !.um = [k \in all |-> IF k \in new THEN k * 20000 + s.hid ELSE s.um[k]],
               !.mode = [k \in all |-> IF k \in new THEN "s" ELSE s.mode[k]],
               !.wm = top]

SignedIds(s, L) == {IF l > 0 THEN s.um[l] ELSE -s.um[-l] : l \in L}
LitTrue(s, m, l) == IF l > 0 THEN s.um[l] \in m ELSE s.um[-l] \notin m
IdsOf(s, L) == {s.um[v] : v \in VarsOf(L)}
Extend(s, ids) ==
  LET n == ids \ s.dom
  IN IF n = {} THEN s
     ELSE [s EXCEPT !.dom = @ \cup n, !.ms = {m \cup t : m \in s.ms, t \in SUBSET n}]

(* satisfiable together with the literals L *)
SatWith(s, L) ==
  /\ Consistent(L)
  /\ LET D == {l \in L : s.um[Abs(l)] \in s.dom}
     IN \E m \in s.ms : \A l \in D : LitTrue(s, m, l)

AddOne(s, c) ==
  LET L == Rng(c)
      t == Touch(s, VarsOf(L))
  IN IF Tautology(L) THEN t ELSE
     IF s.big THEN [t EXCEPT !.cl = @ \cup {SignedIds(t, L)}] ELSE
     LET e == Extend(t, IdsOf(t, L))
     IN [e EXCEPT !.ms = {m \in e.ms : \E l \in L : LitTrue(e, m, l)},
                  !.taint = @ \/ IdsOf(t, L) \cap t.opq # {}]
AddAll(s, cs) == FoldLeft(AddOne, s, cs)

Witnesses(s, V) == {v \in V : v \in Visible(s) /\ s.mode[v] = "w"}

HideVar(s, v) ==
  LET id == s.um[v]
      rest == Visible(s) \ {v}
  IN [s EXCEPT !.um = NoRestriction(s.um, rest), !.mode = NoRestriction(s.mode, rest),
               !.hid = @ + 1,
               !.cl = {C \in @ : id \notin VarsOf(C)},
               !.dom = @ \ {id},
               !.ms = IF id \in s.dom THEN {m \ {id} : m \in s.ms} ELSE @,
               !.atsol = @ \ {id}]

(* the current answer as offered after the call ---------------------------*)
ResOf(ev) ==
  IF ev.ob # "ok" THEN "panic"
  ELSE IF ev.hm = 1 /\ ev.hc = 1 THEN "both"
  ELSE IF ev.hm = 1 THEN "S"
  ELSE IF ev.hc = 1 THEN (IF ev.c = <<>> THEN "N" ELSE "A")
  ELSE "U"

(* what a model must satisfy in state s *)
ModelRules(s, ev) ==
  LET M == Rng(ev.m)
      V == VarsOf(M)
      must == {v \in Visible(s) : s.um[v] \in s.atsol}
  IN If(Len(ev.m) # Cardinality(V), "model-repeats")
     \cup If(~(V \subseteq Visible(s)), "model-alien")
     \cup If(~(must \subseteq V), "model-misses")
     \cup (IF V \subseteq Visible(s) /\ must \subseteq V /\ ~s.taint
           THEN If(~({s.um[v] : v \in {w \in V : w \in M}} \cap s.dom \in s.ms), "model-false")
                \cup If(~(s.asm \subseteq M), "model-assumption")
           ELSE {})
     \cup (IF s.big /\ V \subseteq Visible(s) /\ must \subseteq V
           THEN LET T == SignedIds(s, M)
                IN If(\E C \in s.cl : C \cap T = {} /\ VarsOf(C) \subseteq VarsOf(T), "model-false")
                   \cup If(~(s.asm \subseteq M), "model-assumption")
           ELSE {})

CoreRules(s, ev) ==
  LET C == Rng(ev.c)
  IN If(~(C \subseteq s.asm), "core-alien")
     \cup (IF C \subseteq s.asm /\ ~s.taint THEN If(SatWith(s, C), "core-weak") ELSE {})

(* the current answer o must be one of exp; sem: semantic rules for it     *)
AnswerRules(s, ev, exp) ==
  LET o == ResOf(ev)
  IN If(o = "panic", "read-panic")
     \cup If(o # "panic" /\ o \notin exp, "answer-" \o o \o
             (CASE s.res = "U" -> "-for-U" [] s.res = "S" -> "-for-S"
                [] s.res = "A" -> "-for-A" [] OTHER -> "-for-N"))
     \cup (IF o \in {"S", "both"} THEN ModelRules(s, ev) ELSE {})
     \cup (IF o = "A" THEN CoreRules(s, ev) ELSE {})
     \cup (IF o = "N" /\ ~s.taint THEN If(s.ms # {}, "unsat-wrong") ELSE {})

Settle(s, ev) == [s EXCEPT !.res = ResOf(ev), !.core = IF ResOf(ev) = "A" THEN Rng(ev.c) ELSE {},
                           !.jobs = ev.o = "observe"]

(* calls that must not change the answer *)
Keep(s, t, ev) ==
  [v |-> AnswerRules(t, ev, {s.res})
         \cup If(s.res = "A" /\ ResOf(ev) = "A" /\ Rng(ev.c) # s.core, "core-changed"),
   s |-> Settle(t, ev)]
With(r, extra) == [r EXCEPT !.v = @ \cup extra]
Stop(s, labs) == [v |-> labs, s |-> [s EXCEPT !.res = "END"]]   \* the history ends here

Panic(r) == r \in {"panic:witness", "panic:assumed", "panic:late", "panic:dead",
                   "panic:drat", "panic:selfcheck", "panic:other", "hang"}
Incremental(s) == s.fmt \in {"drat", "bdrat"} /\ ~s.closed

(* the calls --------------------------------------------------------------*)
StepNewVar(s, ev) ==
  IF ev.r # "ok" THEN Stop(s, {"crash"})
  ELSE IF ev.v <= 0 \/ ev.v \in Visible(s) \ s.maybe THEN Stop(s, {"newvar-visible"})
  ELSE LET t == [Touch(s, {ev.v}) EXCEPT !.made = TRUE, !.maybe = @ \ {ev.v}] IN Keep(s, t, ev)

NewVar1(s, v) ==
  IF s.wm = -1 \/ v <= 0 \/ v \in Visible(s) \ s.maybe THEN [s EXCEPT !.wm = -1]
  ELSE [Touch(s, {v}) EXCEPT !.maybe = @ \ {v}]
NewVars(s, l) == FoldLeft(NewVar1, s, l)
StepNewVars(s, ev) ==
  IF ev.r # "ok" THEN Stop(s, {"crash"})
  ELSE LET t == NewVars(s, ev.l)
       IN IF t.wm = -1 THEN Stop(s, {"newvar-visible"})
          ELSE Keep(s, [t EXCEPT !.made = TRUE], ev)

StepAdd(s, ev) ==
  LET cs == ev.cls
      V == UNION {VarsOf(Rng(cs[i])) : i \in DOMAIN cs}
      w == Witnesses(s, V) # {}
      t0 == AddAll(s, cs)
      t == IF cs = <<>> THEN s ELSE [t0 EXCEPT !.added = TRUE]
      exp == IF s.res = "N" THEN {"N"} ELSE
             (IF s.res = "A" THEN {"A", "N"} ELSE IF cs = <<>> THEN {s.res, "N"} ELSE {"U", "N"})
  IN IF s.res = "N" /\ ev.r = "ok"
       \* nothing can change any more; variables are not even introduced
     THEN [v |-> AnswerRules(s, ev, {"N"}),
           s |-> [Settle(Touch(s, V), ev) EXCEPT !.added = TRUE,
                                                 !.maybe = @ \cup (Visible(Touch(s, V)) \ Visible(s))]]
     ELSE IF ev.r = "panic:witness"
     THEN Stop(s, If(~w, "witness-refused"))
     ELSE IF ev.r = "panic:drat"
     THEN Stop(s, If(~(Incremental(s) /\ s.solved), "crash"))
     ELSE IF ev.r # "ok" THEN Stop(s, {"crash"})
     ELSE IF w /\ t0.ms # {} /\ ~s.taint THEN Stop(s, {"witness-constrained"})
     ELSE IF w /\ ResOf(ev) # "N" THEN Stop(s, If(~s.taint, "unsat-missed"))
     ELSE IF Incremental(s) /\ s.solved /\ cs # <<>> /\ t.ms # {} /\ ~s.taint
     THEN Stop(s, {"drat-incremental"})
     ELSE [v |-> AnswerRules(t, ev, exp),
           s |-> [Settle(t, ev) EXCEPT !.maybe = IF ResOf(ev) = "N" THEN Visible(t) \ Visible(s) ELSE @]]

StepAssume(s, ev) ==
  LET L == Rng(ev.l)
      w == Witnesses(s, VarsOf(L)) # {}
      t0 == IF L = {} THEN s ELSE Touch(s, VarsOf(L))
      t == [t0 EXCEPT !.asm = L, !.maybe = @ \ VarsOf(L), !.taint = @ \/ IdsOf(t0, L) \cap t0.opq # {}]
  IN IF ev.r = "panic:witness" THEN Stop(s, If(~w, "witness-refused"))
     ELSE IF ev.r = "panic:drat" THEN Stop(s, If(~Incremental(s), "crash"))
     ELSE IF ev.r # "ok" THEN Stop(s, {"crash"})
     ELSE IF w THEN Stop(s, {"witness-constrained"})
     ELSE IF Incremental(s) /\ L # {} THEN Stop(s, {"drat-incremental"})
     ELSE [v |-> AnswerRules([t EXCEPT !.res = s.res], ev, IF s.res = "N" THEN {"N"} ELSE {"U"}),
           s |-> Settle(t, ev)]

StepSolve(s, ev) ==
  LET t == [s EXCEPT !.solved = TRUE, !.atsol = {s.um[v] : v \in Visible(s)}]
      sat == SatWith(s, s.asm)
  IN IF ev.r = "hang" THEN Stop(s, {"hang"})
     ELSE IF Panic(ev.r) THEN Stop(s, {"crash"})
     ELSE IF ev.r = "T" THEN
       [v |-> If(~s.taint /\ ~sat, "sat-wrong") \cup If(s.res = "N", "unsat-forgotten")
              \cup AnswerRules(t, ev, {"S"}),
        s |-> Settle(t, ev)]
     ELSE IF ev.r = "F" THEN
       [v |-> If(~s.taint /\ sat, "unsat-wrong")
              \cup AnswerRules(t, ev, IF s.res = "N" \/ s.asm = {} THEN {"N"} ELSE {"A", "N"}),
        s |-> Settle(t, ev)]
     ELSE Stop(s, {"solve-error"})

StepMode(s, ev) ==
  LET t == Touch(s, {ev.v})
      assumed == ev.v \in VarsOf(s.asm)
      want == CASE ev.o = "hide" -> "h" [] ev.o = "witness" -> "w" [] OTHER -> "s"
      same == t.mode[ev.v] = want
      u == IF want = "h" THEN HideVar(t, ev.v) ELSE [t EXCEPT !.mode[ev.v] = want]
  IN IF ev.r = "panic:assumed" THEN Stop(s, If(~assumed, "mode-refused"))
     ELSE IF ev.r # "ok" THEN Stop(s, {"crash"})
     ELSE IF assumed /\ ~same THEN Stop(s, {"mode-allowed"})
     ELSE Keep(s, u, ev)

StepObserve(s, ev) ==
  LET R == Rng(ev.l)
      bad == Cardinality(R) # Len(ev.l) \/ R \cap (Visible(s) \ s.maybe) # {} \/ (\E v \in R : v <= 0)
      all == Visible(s) \cup R
      id(v) == v * 20000 + 18000 + s.nobs
      t == IF R = {} THEN s ELSE
           [s EXCEPT !.um = [k \in all |-> IF k \in R THEN id(k) ELSE s.um[k]],
                     !.mode = [k \in all |-> IF k \in R THEN "w" ELSE s.mode[k]],
                     !.wm = IF MaxOf(R) > @ THEN MaxOf(R) ELSE @,
                     !.opq = @ \cup {id(v) : v \in R},
                     !.nobs = @ + Cardinality(R), !.maybe = @ \ R]
  IN IF ev.r # "ok" THEN Stop(s, {"crash"})
     ELSE IF bad THEN Stop(s, {"observe-clash"})
     ELSE With(Keep(s, t, ev),
               If(t.nobs > s.hid, "observe-many") \cup If(s.jobs /\ R # {}, "observe-again"))

CfgLow  == <<500, 500, 1, 1, 1>>
CfgTop  == <<999, 999, 2000000000, 2000000000, 2000000000>>
CfgOk(l) == \A i \in 1..5 : l[i] = -1 \/ (l[i] >= CfgLow[i] /\ l[i] <= CfgTop[i])
StepConfig(s, ev) ==
  LET good == CfgOk(ev.l)
      new == [i \in 1..5 |-> IF good /\ ev.l[i] # -1 THEN ev.l[i] ELSE s.cfg[i]]
  IN IF Panic(ev.r) THEN Stop(s, {"crash"})
     ELSE With(Keep(s, [s EXCEPT !.cfg = new], ev),
               If(ev.r # (IF good THEN "ok" ELSE "err"), "config-verdict")
               \cup If(ev.cfg # new, "config-values"))

StepSetup(s, ev) ==
  IF ev.r = "panic:late" THEN
    With(Keep(s, s, ev), If(~s.added /\ ~s.made /\ s.wm = 0, "setup-refused"))
  ELSE IF ev.r # "ok" THEN Stop(s, {"crash"})
  ELSE IF s.added THEN Stop(s, {"setup-late"})
  ELSE Keep(s, [s EXCEPT !.fmt = IF ev.o = "proof" THEN ev.f ELSE @, !.closed = IF ev.o = "proof" THEN FALSE ELSE @], ev)

StepClose(s, ev) ==
  IF ev.r = "ok" THEN Keep(s, [s EXCEPT !.closed = TRUE], ev)
  ELSE Stop(s, {"close-error"})

StepDrop(s, ev) == Stop(s, If(ev.r # "ok", "crash"))

Step(s, ev) ==
  CASE ev.o = "newvar"  -> StepNewVar(s, ev)
    [] ev.o = "newvars" -> StepNewVars(s, ev)
    [] ev.o \in {"add", "addf", "dimacs"} -> StepAdd(s, ev)
    [] ev.o = "assume"  -> StepAssume(s, ev)
    [] ev.o = "solve"   -> StepSolve(s, ev)
    [] ev.o \in {"hide", "witness", "sample"} -> StepMode(s, ev)
    [] ev.o = "observe" -> StepObserve(s, ev)
    [] ev.o = "config"  -> StepConfig(s, ev)
    [] ev.o \in {"proof", "processor", "selfcheck"} -> StepSetup(s, ev)
    [] ev.o = "close"   -> StepClose(s, ev)
    [] OTHER            -> StepDrop(s, ev)
=============================================================================

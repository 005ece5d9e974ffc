------------------------------ MODULE ProofRaw ------------------------------
(***************************************************************************)
(* What the checker may accept, and what it must report when it does.      *)
(*                                                                         *)
(* Input: a formula and the decoded steps of an arbitrary (possibly wrong) *)
(* native proof, with the checker's verdict, the steps it showed to its    *)
(* processors (C) and the transcript steps (T).  Each accepted raw step is *)
(* judged against the present clauses; the reported steps are consumed in  *)
(* lock step.  Clause hashes play no role here: an accepted derivation is  *)
(* judged by the propagation sequence the checker itself reports.          *)
(***************************************************************************)
EXTENDS ProofSys

Init0(load) ==
  [ cl    |-> EmptyFcn,     \* identifier -> clause, everything present
    irr   |-> EmptyFcn,     \* identifier -> number of irredundant copies
    red   |-> EmptyFcn,     \* identifier -> number of redundant copies
    last  |-> -1,           \* largest identifier used
    unsat |-> FALSE,        \* contradiction shown
    empty |-> FALSE,        \* the empty clause was reported as derived
    ut    |-> EmptyFcn,     \* variable -> identifier of its (first) unit clause
    pend  |-> <<>>,         \* conflicting units still to be reported
    prev  |-> [on |-> FALSE, c |-> {}, id |-> -1],
    asm   |-> {},
    um    |-> EmptyFcn,     \* proof variable -> explicit user name
    mode  |-> EmptyFcn,     \* proof variable -> "s", "w", "h" (default "s")
    k |-> 0, t |-> 0 ]      \* steps and transcript steps consumed

Mode(s, v) == IF v \in DOMAIN s.mode THEN s.mode[v] ELSE "s"
(* a sampling variable without explicit name goes by its own number, unless *)
(* that name was given to another variable                                  *)
Named(s, v) == v \in DOMAIN s.um \/ (Mode(s, v) = "s" /\ \A w \in DOMAIN s.um : s.um[w] # v)
InUse(s, v) == v \in VarsOf(s.asm) \/ \E id \in DOMAIN s.cl : v \in VarsOf(s.cl[id])
Name(s, v) == IF v \in DOMAIN s.um THEN s.um[v] ELSE v
UserLits(s, L) == {IF l > 0 THEN Name(s, l) ELSE -Name(s, -l) : l \in {l \in L : Named(s, Abs(l))}}

None == [k |-> "none", id |-> -9, c |-> <<>>, p |-> <<>>, same |-> -9, v |-> 0, u |-> 0]
Id(e) == IF "id" \in DOMAIN e THEN e.id ELSE -9
At(q, i) == IF i <= Len(q) THEN q[i] ELSE None

Ids(s, C) == {id \in DOMAIN s.cl : s.cl[id] = C}
Count(s, id) == IF id \in DOMAIN s.irr THEN s.irr[id] ELSE 0
Put(f, id, x) == (id :> x) @@ f

(* consume one reported step / one transcript step ------------------------*)
Shape(s, e, k, C) ==
  If(e.k # k, "step-missing-" \o k)
  \cup (IF e.k = k /\ k # "uv"
        THEN If(Rng(e.c) # C, "step-clause") \cup If(~Sorted(e.c) /\ k # "model", "step-unsorted") ELSE {})
Tr(s, T, k, L) ==
  LET t == At(T, s.t + 1)
  IN IF t.k # k THEN {"tr-missing-" \o k} ELSE If(Rng(t.c) # L, "tr-lits-" \o k)
TrV(s, T, k, v) ==
  LET t == At(T, s.t + 1)
  IN IF t.k # k THEN {"tr-missing-" \o k} ELSE If(t.v # v, "tr-var-" \o k)
Ok(s) == [v |-> {}, s |-> s]
Bad(s, labs) == [v |-> labs, s |-> s]
NewId(s, e) == If(Id(e) <= s.last, "id-not-increasing")

(* The first unit clause of a variable is the one later copies are compared *)
(* with; a contradicting one makes the formula unsatisfiable.               *)
Unit(C) == Cardinality(C) = 1
UVar(C) == Abs(CHOOSE l \in C : TRUE)
Clash(s, C) == Unit(C) /\ UVar(C) \in DOMAIN s.ut /\ s.cl[s.ut[UVar(C)]] # C
AddNew(s, id, C, red) ==
  [s EXCEPT !.cl = Put(@, id, C), !.irr = Put(@, id, IF red /\ Cardinality(C) > 1 THEN 0 ELSE 1),
            !.red = Put(@, id, IF red /\ Cardinality(C) > 1 THEN 1 ELSE 0), !.last = id,
            !.unsat = @ \/ C = {} \/ Clash(s, C),
            !.empty = @ \/ C = {},
            !.ut = IF Unit(C) /\ ~Clash(s, C) THEN Put(@, UVar(C), id) ELSE @,
            !.pend = IF Clash(s, C) THEN <<s.ut[UVar(C)], id>> ELSE @]

(* is C present, so that another copy is a duplicate? *)
Present(s, C) == IF Unit(C) THEN UVar(C) \in DOMAIN s.ut /\ ~Clash(s, C) ELSE C # {} /\ Ids(s, C) # {}
TheId(s, C) == IF Unit(C) THEN s.ut[UVar(C)] ELSE CHOOSE id \in Ids(s, C) : TRUE

(* input clauses -----------------------------------------------------------*)
LoadClause(s, c, C, T, initial) ==
  LET L == Rng(c)
      e == At(C, s.k + 1)
      ul == UserLits(s, L)
      dense(x, last) == If(initial /\ Id(x) # last + 1, "id-not-input-order")
  IN IF s.unsat THEN Ok(s)
     ELSE IF \E v \in VarsOf(L) : Mode(s, v) # "s" THEN Bad(s, {"var-not-sampling"})
     ELSE IF \E v \in VarsOf(L) : ~Named(s, v) THEN Bad(s, {"var-name-taken"})
     ELSE IF ~Consistent(L)
     THEN [v |-> Shape(s, e, "taut", L) \cup NewId(s, e) \cup dense(e, s.last) \cup Tr(s, T, "add", ul),
           s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1, !.last = Id(e)]]
     ELSE IF Present(s, L)
     THEN LET id == TheId(s, L)
              newly == Cardinality(L) > 1 /\ Count(s, id) = 0
              e2 == IF newly THEN At(C, s.k + 2) ELSE e
          IN [v |-> (IF newly THEN Shape(s, e, "irr", L) \cup If(Id(e) # id, "id-other-clause") ELSE {})
                    \cup Shape(s, e2, "dup", L) \cup NewId(s, e2) \cup dense(e2, s.last)
                    \cup (IF e2.k = "dup" THEN If(e2.same # id, "id-other-clause") ELSE {})
                    \cup Tr(s, T, "add", ul),
              s |-> [s EXCEPT !.k = @ + (IF newly THEN 2 ELSE 1), !.t = @ + 1, !.last = Id(e2),
                               !.irr = IF Cardinality(L) > 1 THEN Put(@, id, Count(s, id) + 1) ELSE @]]
     ELSE [v |-> Shape(s, e, "add", L) \cup NewId(s, e) \cup dense(e, s.last) \cup Tr(s, T, "add", ul),
           s |-> [AddNew(s, Id(e), L, FALSE) EXCEPT !.k = @ + 1, !.t = @ + 1]]

(* derived clauses ---------------------------------------------------------*)
Derive(s, L, red, isUnits, C, T) ==
  LET e == At(C, s.k + 1)
      trv == IF L = {} THEN Tr(s, T, "unsat", {}) ELSE {}
      tn == IF L = {} THEN 1 ELSE 0
      s1 == [s EXCEPT !.prev = IF red \/ isUnits THEN @ ELSE [on |-> TRUE, c |-> L, id |-> -1]]
      setprev(t, id) == IF red \/ isUnits THEN t ELSE [t EXCEPT !.prev = [on |-> TRUE, c |-> L, id |-> id]]
  IN IF ~Consistent(L) THEN Bad(s, {"at-tautology"})
     ELSE IF Present(s, L)
     THEN LET id == TheId(s, L)
              newly == ~red /\ Cardinality(L) > 1 /\ Count(s, id) = 0
              s2 == IF Cardinality(L) = 1 THEN s1
                    ELSE IF red THEN [s1 EXCEPT !.red = Put(@, id, s.red[id] + 1)]
                    ELSE [s1 EXCEPT !.irr = Put(@, id, Count(s, id) + 1)]
          IN IF newly
             THEN [v |-> Shape(s, e, "irr", L) \cup If(e.k = "irr" /\ Id(e) # id, "id-other-clause"),
                   s |-> setprev([s2 EXCEPT !.k = @ + 1], id)]
             ELSE Ok(setprev(s2, id))
     ELSE [v |-> Shape(s, e, "at", L)
                 \cup (IF e.k # "at" THEN {} ELSE
                       NewId(s, e) \cup If(~Implied(s.cl, L, e.p), "at-not-implied")
                       \cup If((e.red = 1) # red, "step-redundancy"))
                 \cup trv,
           s |-> setprev([AddNew(s1, Id(e), L, red) EXCEPT !.k = @ + 1, !.t = @ + tn], Id(e))]

UnitsStep(s, lits, C, T) ==
  FoldLeft(LAMBDA acc, l : IF acc.v # {} THEN acc
                           ELSE Derive(acc.s, {l}, FALSE, TRUE, C, T),
           Ok(s), lits)

(* deletion ----------------------------------------------------------------*)
Delete(s, L, kind, C, T) ==
  LET e == At(C, s.k + 1)
      s0 == [s EXCEPT !.prev = [on |-> FALSE, c |-> {}, id |-> -1]]
      id == TheId(s, L)
      units == {x \in DOMAIN s.cl : Cardinality(s.cl[x]) = 1 /\ s.cl[x] \subseteq L}
      subs == {x \in DOMAIN s.cl : s.cl[x] \subseteq L /\ x # id /\ (Count(s, x) > 0)}
      gone(t) == [t EXCEPT !.cl = Without(@, {id}), !.irr = Without(@, {id}), !.red = Without(@, {id})]
      \* exactly this must be reported
      report(k) == IF e.k # k \/ Id(e) # id THEN {"del-report"} ELSE Shape(s, e, k, L)
  IN IF Cardinality(L) < 2 THEN Bad(s, {"del-unit"})
     ELSE IF ~Consistent(L) THEN Bad(s, {"del-unknown"})
     ELSE IF Ids(s, L) = {} THEN Bad(s, {"del-unknown"})
     ELSE IF kind = 0
     THEN IF s.red[id] = 0 THEN Bad(s, {"del-irredundant"})
          ELSE IF s.red[id] = 1 /\ s.irr[id] = 0
          THEN [v |-> report("del"), s |-> gone([s0 EXCEPT !.k = @ + 1])]
          ELSE Ok([s0 EXCEPT !.red = Put(@, id, s.red[id] - 1)])   \* another copy stays: no report
     ELSE IF s.irr[id] = 0 THEN Bad(s, {"del-redundant"})
     ELSE IF s.irr[id] > 1
     THEN Ok([s0 EXCEPT !.irr = Put(@, id, s.irr[id] - 1)])
     ELSE [v |-> If(subs = {}, IF kind = 2 THEN "del-not-satisfied" ELSE "del-not-subsumed")
                 \cup If(kind = 2 /\ units = {}, "del-not-satisfied")
                 \cup report("delat")
                 \cup (IF e.k # "delat" THEN {} ELSE
                       If(Len(e.p) # 1 \/ ~(Rng(e.p) \subseteq subs), "del-wrong-reason")
                       \cup If((e.keep = 1) # (s.red[id] > 0), "del-keep")),
           s |-> IF s.red[id] > 0 THEN [s0 EXCEPT !.k = @ + 1, !.irr = Put(@, id, 0)]
                 ELSE gone([s0 EXCEPT !.k = @ + 1])]

(* a pending conflict of two units becomes the empty clause *)
Conflict(s, C, T) ==
  LET e == At(C, s.k + 1)
  IN IF s.pend = <<>> THEN Ok(s)
     ELSE [v |-> Shape(s, e, "at", {}) \cup NewId(s, e) \cup Tr(s, T, "unsat", {})
                 \cup (IF e.k = "at" THEN If(~Implied(s.cl, {}, e.p), "at-not-implied") ELSE {}),
           s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1, !.pend = <<>>, !.last = Id(e), !.empty = TRUE]]

DeleteVar1(s, v, C, T) ==
  LET e == At(C, s.k + 1)
      occ == {id \in DOMAIN s.cl : Cardinality(s.cl[id]) > 1 /\ v \in VarsOf(s.cl[id])}
      us == {id \in DOMAIN s.cl : Cardinality(s.cl[id]) = 1 /\ v \in VarsOf(s.cl[id])}
      reset(t) == [t EXCEPT !.mode = Without(@, {v})]
  IN IF v \in DOMAIN s.um \/ Mode(s, v) # "h" THEN Bad(s, {"dv-visible"})
     ELSE IF occ # {} THEN Bad(s, {"dv-occurs"})
     ELSE IF us = {} THEN Ok(reset(s))      \* no unit to remove
     ELSE [v |-> If(e.k # "delrat", "step-missing-delrat")
                 \cup (IF e.k = "delrat" THEN If(Id(e) \notin us, "id-other-clause")
                                              \cup (IF Id(e) \in us THEN If(Rng(e.c) # s.cl[Id(e)], "step-clause") ELSE {})
                                              \cup If(Abs(e.piv) # v, "step-pivot") ELSE {}),
           s |-> reset([s EXCEPT !.k = @ + 1, !.cl = Without(@, us), !.irr = Without(@, us),
                                 !.red = Without(@, us), !.ut = Without(@, {v})])]

(* the conflict is reported first if the checker chooses to *)
DeleteVar(s, v, C, T) ==
  LET e == At(C, s.k + 1)
      c == Conflict(s, C, T)
      legal == ~(v \in DOMAIN s.um \/ Mode(s, v) # "h")
      r == DeleteVar1(c.s, v, C, T)
  IN IF legal /\ s.pend # <<>> /\ e.k = "at" /\ e.c = <<>>
     THEN [v |-> c.v \cup r.v, s |-> r.s]
     ELSE DeleteVar1(s, v, C, T)

(* variables ---------------------------------------------------------------*)
UserName(s, g, u, C, T) ==
  LET e == At(C, s.k + 1)
      taken == {w \in DOMAIN s.um : s.um[w] = u}
      implicit == u # g /\ u \notin DOMAIN s.um /\ Named(s, u) /\ InUse(s, u)
  IN IF u = 0
     THEN IF g \notin DOMAIN s.um THEN Bad(s, {"var-no-name"})
          ELSE IF g \in VarsOf(s.asm) THEN Bad(s, {"var-assumed"})
          ELSE [v |-> Shape(s, e, "uv", {}) \cup (IF e.k = "uv" THEN If(e.v # g \/ e.u # 0 \/ e.um # s.um[g], "step-var") ELSE {})
                      \cup TrV(s, T, "hide", s.um[g]),
                s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1, !.um = Without(@, {g}), !.mode = Put(@, g, "h")]]
     ELSE IF Mode(s, g) = "h" THEN Bad(s, {"var-hidden"})
     ELSE IF g \in DOMAIN s.um \/ taken # {} THEN Bad(s, {"var-name-taken"})
     ELSE IF implicit THEN Bad(s, {"var-name-implicit"})
     ELSE IF u # g /\ Named(s, g) /\ InUse(s, g) THEN Bad(s, {"var-renamed"})
     ELSE [v |-> Shape(s, e, "uv", {})
                 \cup (IF e.k = "uv" THEN If(e.v # g \/ e.u # u \/ e.mode # Mode(s, g) \/ e.new # 1, "step-var") ELSE {})
                 \cup (IF Mode(s, g) = "w" THEN TrV(s, T, "observe", u) ELSE {}),
           s |-> [s EXCEPT !.k = @ + 1, !.t = IF Mode(s, g) = "w" THEN @ + 1 ELSE @, !.um = Put(@, g, u)]]

ChangeMode(s, v, m, C, T) ==
  LET e == At(C, s.k + 1)
      s1 == [s EXCEPT !.mode = Put(@, v, m)]
  IN IF Mode(s, v) = m THEN Ok(s)
     ELSE IF v \in VarsOf(s.asm) THEN Bad(s, {"var-assumed"})
     ELSE IF v \notin DOMAIN s.um
     THEN IF m = "s" THEN Bad(s, {"var-sample-hidden"})
          ELSE IF Named(s, v) /\ InUse(s, v) THEN Bad(s, {"var-renamed"}) ELSE Ok(s1)
     ELSE [v |-> Shape(s, e, "uv", {})
                 \cup (IF e.k = "uv" THEN If(e.v # v \/ e.u # s.um[v] \/ e.mode # m \/ e.new # 0, "step-var") ELSE {})
                 \cup TrV(s, T, IF m = "s" THEN "sample" ELSE "witness", s.um[v]),
           s |-> [s1 EXCEPT !.k = @ + 1, !.t = @ + 1]]

(* claims ------------------------------------------------------------------*)
Model(s, c, C, T) ==
  LET M == Rng(c)
      e == At(C, s.k + 1)
  IN [v |-> If(~Consistent(M), "model-inconsistent") \cup If(s.unsat, "model-of-unsat")
            \cup If(~(s.asm \subseteq M), "model-assumption")
            \cup If(\E id \in DOMAIN s.cl : ~Satisfies(M, s.cl[id]), "model-clause")
            \cup Shape(s, e, "model", M) \cup Tr(s, T, "model", UserLits(s, M)),
      s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1]]

Assume(s, c, C, T) ==
  LET L == Rng(c)
      e == At(C, s.k + 1)
  IN IF \E v \in VarsOf(L) : Mode(s, v) # "s" THEN Bad(s, {"var-not-sampling"})
     ELSE IF \E v \in VarsOf(L) : ~Named(s, v) THEN Bad(s, {"var-name-taken"})
     ELSE [v |-> Shape(s, e, "assum", L) \cup Tr(s, T, "assume", UserLits(s, L)),
           s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1, !.asm = L]]

Fail(s, c, C, T) ==
  LET L == Rng(c)
      e == At(C, s.k + 1)
  IN [v |-> If(~(L \subseteq s.asm), "fail-not-assumed") \cup Shape(s, e, "fail", L)
            \cup (IF e.k = "fail" /\ Consistent(L)
                  THEN If(~Implied(s.cl, {-l : l \in L}, e.p), "fail-not-implied") ELSE {})
            \cup Tr(s, T, "fail", UserLits(s, L)),
      s |-> [s EXCEPT !.k = @ + 1, !.t = @ + 1]]

RawStep(s, r, C, T) ==
  LET L == Rng(r.c)
  IN CASE r.k = "addc"  -> LoadClause(s, r.c, C, T, FALSE)
       [] r.k = "at"    -> Derive(s, L, r.f = 1, FALSE, C, T)
       [] r.k = "units" -> UnitsStep(s, r.c, C, T)
       [] r.k = "del"   -> Delete(s, L, r.f, C, T)
       [] r.k = "uvn"   -> UserName(s, r.v, r.u, C, T)
       [] r.k = "dv"    -> DeleteVar(s, r.v, C, T)
       [] r.k = "csm"   -> ChangeMode(s, r.v, IF r.f = 1 THEN "s" ELSE "w", C, T)
       [] r.k = "model" -> Model(s, r.c, C, T)
       [] r.k = "assum" -> Assume(s, r.c, C, T)
       [] r.k = "fail"  -> Fail(s, r.c, C, T)
       [] r.k = "hb"    -> [v |-> If(r.v < 1 \/ r.v > 64, "hash-bits"), s |-> s]
       [] OTHER         -> Ok(s)

(* A step that breaks no rule is accepted.  The hints of a refused step are *)
(* given as the clauses they name.  Left open: what happens once the clauses *)
(* are contradictory, a name that is some unnamed variable's own number, and *)
(* setting the mode of an assumed variable to what it is.                    *)
Rules == {"var-not-sampling", "var-name-taken", "var-no-name", "var-assumed", "var-hidden",
          "var-name-implicit", "var-renamed", "var-sample-hidden", "at-tautology", "del-unit", "del-unknown",
          "del-irredundant", "del-redundant", "del-not-satisfied", "del-not-subsumed", "dv-visible",
          "dv-occurs", "model-inconsistent", "model-of-unsat", "model-assumption", "model-clause",
          "fail-not-assumed", "hash-bits"}
Units(cls) == UNION {C \in cls : Cardinality(C) = 1}
Works(cls, C, hints) ==
  \/ \E l \in C : {l} \in cls
  \/ LET step(acc, hc) ==
            LET D == Rng(hc)
                open == {l \in D : -l \notin acc.a}
            IN IF acc.st # "go" THEN acc
               ELSE IF D \notin cls \/ D = {} THEN [acc EXCEPT !.st = "bad"]
               ELSE IF D \cap acc.a # {} THEN acc
               ELSE IF open = {} THEN [acc EXCEPT !.st = "conf"]
               ELSE IF Cardinality(open) = 1 THEN [acc EXCEPT !.a = @ \cup open]
               ELSE acc
     IN FoldLeft(step, [st |-> "go", a |-> {-l : l \in C} \cup Units(cls)], hints).st = "conf"
Legal(s, r, hints) ==
  LET L == Rng(r.c)
      cls == Rng(s.cl)
  IN CASE s.unsat        -> FALSE
       [] r.k = "csm" /\ r.v \in VarsOf(s.asm) -> FALSE
       [] r.k = "uvn" /\ r.u # 0 /\ r.u # r.v /\ r.u \notin DOMAIN s.um -> FALSE
       [] r.k = "at"    -> Consistent(L) /\ Works(cls, L, hints)
       [] r.k = "fail"  -> L \subseteq s.asm /\ (~Consistent(L) \/ Works(cls, {-l : l \in L}, hints))
       [] r.k = "units" ->
            FoldLeft(LAMBDA acc, i : IF acc.ok /\ Works(acc.cls, {r.c[i]}, <<hints[i]>>)
                                     THEN [acc EXCEPT !.cls = @ \cup {{r.c[i]}}] ELSE [acc EXCEPT !.ok = FALSE],
                     [ok |-> TRUE, cls |-> cls], [i \in 1..Len(r.c) |-> i]).ok
       [] r.k = "del" -> /\ RawStep(s, r, <<>>, <<>>).v \cap Rules = {}
                         /\ r.f = 1 => s.prev.on /\ s.prev.c \subseteq L /\ s.prev.c # L
                         /\ r.f = 2 => \E l \in L : {l} \in cls
       [] OTHER -> RawStep(s, r, <<>>, <<>>).v \cap Rules = {}

(* after the end marker: conflicting units become the empty clause *)
EndStep(s, C, T) ==
  LET r == Conflict(s, C, T)
  IN r.v \cup (IF r.v # {} THEN {} ELSE If(r.s.k # Len(C), "step-extra") \cup If(r.s.t # Len(T), "tr-extra"))
=============================================================================

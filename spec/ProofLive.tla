------------------------------ MODULE ProofLive ------------------------------
(***************************************************************************)
(* The step sequence shown to proof processors, judged by itself: every     *)
(* step must be legal given the steps before it.  This is the derivation    *)
(* behind the solver's answers: clauses enter only when given by the user   *)
(* or implied by propagation along the listed clauses, they leave only when *)
(* redundant, subsumed or local to a removed variable, models satisfy all   *)
(* that is present and failed assumptions are contradicted.                 *)
(***************************************************************************)
EXTENDS ProofSys

LiveInit ==
  [ cl    |-> EmptyFcn,     \* identifier -> clause, all present
    irr   |-> {},           \* identifiers of irredundant clauses
    ut    |-> EmptyFcn,     \* literal -> identifier of its unit clause
    last  |-> -1,
    unsat |-> FALSE,        \* contradicting clauses are present
    empty |-> FALSE,        \* the empty clause was given or derived
    um    |-> EmptyFcn,     \* proof variable -> user variable
    mode  |-> EmptyFcn,     \* proof variable -> "s" / "w"   (named ones)
    asm   |-> {} ]

LIds(p, C) == IF Cardinality(C) = 1
              THEN LET l == CHOOSE l \in C : TRUE IN IF l \in DOMAIN p.ut THEN {p.ut[l]} ELSE {}
              ELSE {id \in DOMAIN p.cl : p.cl[id] = C}
LPut(f, k, x) == (k :> x) @@ f
LUser(p, L) == {IF l > 0 THEN p.um[l] ELSE -p.um[-l] : l \in {l \in L : Abs(l) \in DOMAIN p.um}}
LNew(p, e) == If(e.id <= p.last, "live-id-order")
              \cup If(~Sorted(e.c), "live-unsorted")
(* user clauses and assumptions are over named sampling variables *)
LSampling(p, L) == If(\E v \in VarsOf(L) : v \notin DOMAIN p.um \/ p.mode[v] # "s", "live-not-sampling")

LStore(p, id, C, irr) ==
  LET l == CHOOSE l \in C : TRUE
      unit == Cardinality(C) = 1
  IN [p EXCEPT !.cl = LPut(@, id, C), !.last = id,
               !.irr = IF irr THEN @ \cup {id} ELSE @,
               !.ut = IF unit /\ l \notin DOMAIN p.ut THEN LPut(@, l, id) ELSE @,
               !.unsat = @ \/ C = {} \/ (unit /\ -l \in DOMAIN p.ut),
               !.empty = @ \/ C = {}]
LDrop(p, id) ==
  [p EXCEPT !.cl = Without(@, {id}), !.irr = @ \ {id},
            !.ut = IF Cardinality(p.cl[id]) = 1 THEN Without(@, p.cl[id]) ELSE @]
LHere(p, e) == If(e.id \notin DOMAIN p.cl, "live-absent")
               \cup (IF e.id \in DOMAIN p.cl THEN If(p.cl[e.id] # Rng(e.c), "live-other-clause") ELSE {})
               \cup If(~Sorted(e.c), "live-unsorted")

LR(p, v) == [v |-> v, p |-> p]
LiveStep(p, e) ==
  LET L == IF e.k = "uv" THEN {} ELSE Rng(e.c)
  IN
  CASE e.k = "add" ->
         LR(LStore(p, e.id, L, TRUE),
            LNew(p, e) \cup LSampling(p, L) \cup If(Tautology(L), "live-tautology")
            \cup If(~p.unsat /\ LIds(p, L) # {}, "live-added-twice")
            \cup If(Rng(e.uc) # LUser(p, L), "live-user-lits"))
    [] e.k = "dup" ->
         LR([p EXCEPT !.last = e.id, !.irr = @ \cup {e.same}],
            LNew(p, e) \cup LSampling(p, L)
            \cup If(~p.unsat /\ e.same \notin LIds(p, L), "live-other-clause")
            \cup If(Cardinality(L) > 1 /\ e.same \notin p.irr, "live-not-irredundant"))
    [] e.k = "taut" ->
         LR([p EXCEPT !.last = e.id], LNew(p, e) \cup LSampling(p, L) \cup If(Consistent(L), "live-no-tautology"))
    [] e.k = "at" ->
         LR(LStore(p, e.id, L, e.red = 0 \/ Cardinality(L) < 2),
            LNew(p, e) \cup If(~Implied(p.cl, L, e.p), "live-at-not-implied")
            \cup If(~p.unsat /\ LIds(p, L) # {}, "live-added-twice"))
    [] e.k = "irr" ->
         LR([p EXCEPT !.irr = @ \cup {e.id}], LHere(p, e) \cup If(e.id \in p.irr, "live-irr-twice"))
    [] e.k = "del" ->
         LET h == LHere(p, e)
         IN LR(IF h = {} THEN LDrop(p, e.id) ELSE p, h \cup If(e.id \in p.irr, "live-del-irredundant"))
    [] e.k = "delat" ->
         LET h == LHere(p, e)
             good == Len(e.p) = 1 /\ e.p[1] \in p.irr /\ e.p[1] # e.id /\ p.cl[e.p[1]] \subseteq L
         IN LR(IF h # {} THEN p ELSE IF e.keep = 1 THEN [p EXCEPT !.irr = @ \ {e.id}] ELSE LDrop(p, e.id),
               h \cup If(~good, "live-del-not-subsumed") \cup If(e.id \notin p.irr, "live-del-redundant")
               \cup If(Cardinality(L) < 2, "live-del-unit"))
    [] e.k = "delrat" ->
         LET h == LHere(p, e)
             v == Abs(e.piv)
         IN LR(IF h = {} THEN LDrop(p, e.id) ELSE p,
               h \cup If(v \notin VarsOf(L) \/ Cardinality(L) # 1, "live-rat-pivot")
               \cup If(v \in DOMAIN p.um, "live-rat-visible")
               \cup If(\E id \in DOMAIN p.cl \ {e.id} : v \in VarsOf(p.cl[id]), "live-rat-occurs"))
    [] e.k = "model" ->
         LR(p, If(Tautology(L), "live-model-inconsistent") \cup If(p.unsat, "live-model-of-unsat")
               \cup If(~(p.asm \subseteq L), "live-model-assumption")
               \cup If(\E id \in DOMAIN p.cl : ~Satisfies(L, p.cl[id]), "live-model-clause"))
    [] e.k = "assum" -> LR([p EXCEPT !.asm = L], LSampling(p, L))
    [] e.k = "fail" ->
         LR(p, If(~(L \subseteq p.asm), "live-fail-not-assumed")
               \cup (IF Consistent(L) THEN If(~Implied(p.cl, {-l : l \in L}, e.p), "live-fail-not-implied") ELSE {}))
    [] e.k = "uv" ->
         IF e.u = 0
         THEN LR([p EXCEPT !.um = Without(@, {e.v}), !.mode = Without(@, {e.v})],
                 If(e.v \notin DOMAIN p.um, "live-var-unnamed") \cup If(e.v \in VarsOf(p.asm), "live-var-assumed"))
         ELSE LR([p EXCEPT !.um = LPut(@, e.v, e.u), !.mode = LPut(@, e.v, e.mode)],
                 If((e.new = 1) # (e.v \notin DOMAIN p.um), "live-var-new")
                 \cup If(e.um # e.u, "live-var-name")
                 \cup If(\E w \in DOMAIN p.um \ {e.v} : p.um[w] = e.u, "live-var-clash")
                 \cup (IF e.v \in DOMAIN p.um THEN If(p.um[e.v] # e.u, "live-var-renamed") ELSE {})
                 \cup If(e.v \in VarsOf(p.asm), "live-var-assumed")
                 \* a new sampling variable is unconstrained
                 \cup If(e.new = 1 /\ e.mode = "s" /\ \E id \in DOMAIN p.cl : e.v \in VarsOf(p.cl[id]), "live-var-not-fresh"))
    [] OTHER -> LR(p, {"live-unknown"})

LiveFold(p, q) ==
  FoldLeft(LAMBDA acc, e : IF acc.v # {} THEN acc ELSE LiveStep(acc.p, e), LR(p, {}), q)
=============================================================================

-------------------------------- MODULE RawMC --------------------------------
(* Closes ProofRaw with an arbitrary prover and an arbitrary reporting       *)
(* checker over a few variables: every raw step over V variables, clauses of *)
(* at most two literals and propagation sequences of at most P hints is      *)
(* offered, together with every report; the accepted ones are taken.         *)
(*                                                                           *)
(* A ghost set g of all clauses ever given is carried along, over abstract   *)
(* variables: a deleted proof variable that comes back is another variable.  *)
(* The invariants say that what the rules accept is sound with respect to g. *)
EXTENDS ProofRaw

CONSTANTS V, Depth, P,
          Names          \* include renaming and modes of variables

VARIABLES s, d, claim,
          g, av,         \* proof level: clauses given, over av[proof variable]
          gu, ver, obs   \* user level: clauses given, over ver[user name]; observed names
vars == <<s, d, claim, g, av, gu, ver, obs>>

Lits == {v : v \in 1..V} \cup {-v : v \in 1..V}
Clauses == {C \in SUBSET Lits : Cardinality(C) <= 2}
Sort(S) == LET Lt(a, b) == IF Abs(a) = Abs(b) THEN a > b ELSE Abs(a) < Abs(b)
           IN SetToSortSeq(S, Lt)
(* for a run over three variables *)
Clauses3 == {{}, {1}, {-2}, {3}, {1, 2}, {1, 3}, {-1, 2}, {1, 2, 3}, {1, 2, -3}, {-1, -2, 3}}
Hints == SeqOf(DOMAIN s.cl, P)

E(k, id, C) == [k |-> k, id |-> id, c |-> Sort(C), p |-> <<>>, same |-> -9, red |-> 0, keep |-> 0, piv |-> 0,
                v |-> 0, u |-> 0, um |-> 0, mode |-> "s", new |-> 0]
Raw(k, C) == [k |-> k, c |-> Sort(C), f |-> 0, v |-> 0, u |-> 0]

Old == DOMAIN s.cl
New == s.last + 1
Reports(r) ==
  LET C == Rng(r.c)
  IN CASE r.k = "addc" ->
            {<<>>, <<E("add", New, C)>>, <<E("taut", New, C)>>}
            \cup {<<[E("dup", New, C) EXCEPT !.same = i]>> : i \in Old}
            \cup {<<E("irr", i, C), [E("dup", New, C) EXCEPT !.same = i]>> : i \in Old}
       [] r.k = "at" ->
            {<<>>} \cup {<<E("irr", i, C)>> : i \in Old}
            \cup LET ps == {p \in Hints : Implied(s.cl, C, p)}
                 IN IF ps = {} THEN {} ELSE {<<[E("at", New, C) EXCEPT !.p = CHOOSE p \in ps : TRUE, !.red = r.f]>>}
       [] r.k = "del" ->
            {<<>>} \cup {<<E("del", i, C)>> : i \in Old}
            \cup {<<[E("delat", i, C) EXCEPT !.p = <<j>>, !.keep = k]>> : i \in Old, j \in Old, k \in {0, 1}}
       [] r.k = "dv" -> {<<>>} \cup {<<[E("delrat", i, s.cl[i]) EXCEPT !.piv = r.v]>> : i \in Old}
       [] r.k = "fail" ->
            LET ps == {p \in Hints : Implied(s.cl, {-l : l \in C}, p)}
            IN {<<E("fail", 0, C)>>} \cup (IF ps = {} THEN {} ELSE {<<[E("fail", 0, C) EXCEPT !.p = CHOOSE p \in ps : TRUE]>>})
       [] r.k = "uvn" ->
            {<<[E("uv", 0, {}) EXCEPT !.v = r.v, !.u = r.u, !.um = IF r.v \in DOMAIN s.um THEN s.um[r.v] ELSE 0,
                                      !.mode = Mode(s, r.v), !.new = 1]>>}
       [] r.k = "csm" ->
            {<<>>} \cup (IF r.v \in DOMAIN s.um
                         THEN {<<[E("uv", 0, {}) EXCEPT !.v = r.v, !.u = s.um[r.v], !.mode = IF r.f = 1 THEN "s" ELSE "w"]>>}
                         ELSE {})
       [] OTHER -> {<<E(r.k, 0, C)>>}

Steps ==
  {Raw("addc", C) : C \in Clauses}
  \cup {[Raw("at", C) EXCEPT !.f = f] : C \in Clauses, f \in {0, 1}}
  \cup {[Raw("del", C) EXCEPT !.f = f] : C \in Rng(s.cl), f \in {0, 1, 2}}
  \cup {Raw("model", C) : C \in {C \in SUBSET Lits : Cardinality(C) <= V}}
  \cup {Raw("assum", C) : C \in Clauses}
  \cup {Raw("fail", C) : C \in SUBSET s.asm}
  \cup (IF ~Names THEN {} ELSE
        {[Raw("dv", {}) EXCEPT !.v = v] : v \in 1..V}
        \cup {[Raw("uvn", {}) EXCEPT !.v = v, !.u = u] : v \in 1..V, u \in 0..V}
        \cup {[Raw("csm", {}) EXCEPT !.v = v, !.f = f] : v \in 1..V, f \in {0, 1}})

(* the transcript is left out: its labels start with tr- *)
Kinds == {"add", "unsat", "observe", "hide", "sample", "witness", "model", "assume", "fail"}
TrLabels == UNION {{"tr-missing-" \o k, "tr-lits-" \o k, "tr-var-" \o k} : k \in Kinds}

VerOf(L) == {IF l > 0 THEN ver[l] ELSE -ver[-l] : l \in L}
AbsOf(L) == {IF l > 0 THEN av[l] ELSE -av[-l] : l \in L}
Init == /\ s = Init0(<<>>) /\ g = {} /\ av = [v \in 1..V |-> v] /\ d = 0
        /\ gu = {} /\ ver = [u \in 1..V |-> u] /\ obs = {}
        /\ claim = <<"none", {}, {}>>
Next ==
  /\ d < Depth /\ ~s.unsat /\ claim[1] = "none"   \* claims change nothing
  /\ d' = d + 1
  /\ \E r \in Steps : \E c \in Reports(r) :
       LET x == RawStep(s, r, c, <<>>)
       IN /\ x.v \ TrLabels = {}
          /\ x.s.k = Len(c)
          /\ s' = [x.s EXCEPT !.k = 0, !.t = 0]
          /\ g' = IF r.k = "addc" /\ Consistent(Rng(r.c)) THEN g \cup {AbsOf(Rng(r.c))} ELSE g
          /\ av' = IF r.k = "dv" THEN [av EXCEPT ![r.v] = MaxOf(Rng(av)) + 1] ELSE av
          /\ gu' = IF r.k = "addc" /\ Consistent(Rng(r.c)) THEN gu \cup {VerOf(UserLits(s, Rng(r.c)))} ELSE gu
          /\ LET hides == r.k = "uvn" /\ r.u = 0
                 n == s.um[r.v]
             IN /\ ver' = IF hides THEN [ver EXCEPT ![n] = MaxOf(Rng(ver)) + 1] ELSE ver
                /\ obs' = IF hides THEN obs \ {n}
                          ELSE IF r.k = "uvn" /\ Mode(s, r.v) = "w" THEN obs \cup {r.u} ELSE obs
          /\ claim' = IF r.k \in {"model", "fail"} THEN <<r.k, Rng(r.c), UserLits(s, Rng(r.c))>> ELSE <<"none", {}, {}>>
Spec == Init /\ [][Next]_vars
McView == vars

(* --- meaning --------------------------------------------------------------*)
AllVars == UNION {VarsOf(C) : C \in g} \cup Rng(av)
Holds(m, L) == \E l \in L : IF l > 0 THEN l \in m ELSE -l \notin m
GModels == {m \in SUBSET AllVars : \A C \in g : Holds(m, C)}
(* assignments of the proof variables, read through av *)
PModels(cls) == {m \in SUBSET (1..V) : \A C \in cls : Holds(m, C)}
Proj(m) == {v \in 1..V : av[v] \in m}
Irr == {s.cl[i] : i \in {i \in DOMAIN s.cl : Count(s, i) > 0}}

(* the irredundant clauses say about the present variables exactly what all  *)
(* clauses ever given say about them; redundant clauses add nothing          *)
SameMeaning == ~s.unsat =>
  /\ PModels(Irr) = {Proj(m) : m \in GModels}
  /\ PModels(Rng(s.cl)) = PModels(Irr)
UnsatMeans == s.unsat => GModels = {}
EmptyMeans == s.empty => s.unsat
ModelMeans == claim[1] = "model" => \E m \in GModels : \A l \in claim[2] \cup s.asm : IF l > 0 THEN av[l] \in m ELSE av[-l] \notin m
FailMeans == (claim[1] = "fail" /\ Consistent(claim[2])) =>
  ~\E m \in GModels : \A l \in claim[2] : IF l > 0 THEN av[l] \in m ELSE av[-l] \notin m
(* the rule for derived clauses is sound for every propagation sequence, and *)
(* propagation to a fixpoint finds whatever some sequence finds              *)
HintsSound == \A C \in Clauses : \A p \in Hints :
  Implied(s.cl, C, p) => (PModels(Rng(s.cl)) \subseteq PModels({C}) /\ Rup(Rng(s.cl), C))
(* no step that breaks no rule is called illegal, and the other way round    *)
LegalAccepted == \A C \in Clauses : \A p \in Hints :
  LET r == Raw("at", C)
      h == [k \in DOMAIN p |-> Sort(s.cl[p[k]])]
  IN (~s.unsat /\ Implied(s.cl, C, p)) => Legal(s, r, h)
(* two variables that can appear in the transcript have different names      *)
Shown(v) == Named(s, v) /\ (v \in DOMAIN s.um \/ InUse(s, v))
NamesUnique == \A v, w \in 1..V : (v # w /\ Shown(v) /\ Shown(w)) => Name(s, v) # Name(s, w)
(* what the transcript says is right in the user's names: a name that is     *)
(* hidden and comes back is another variable, observed ones are defined by    *)
(* clauses the user may not know                                              *)
UVars == UNION {VarsOf(C) : C \in gu} \cup Rng(ver)
UModels(L) == {m \in SUBSET UVars : (\A C \in gu : Holds(m, C)) /\ \A l \in VerOf(L) : Holds(m, {l})}
UserModel == claim[1] = "model" => UModels(claim[3]) # {}
UserFail == (claim[1] = "fail" /\ VarsOf(claim[3]) \cap obs = {}) => UModels(claim[3]) = {}
UserUnsat == s.unsat => UModels({}) = {}
(* assumptions and given clauses only ever speak of variables the user sees  *)
AssumedShown == \A v \in VarsOf(s.asm) : Mode(s, v) = "s" /\ Named(s, v)
Books == /\ DOMAIN s.irr = DOMAIN s.cl /\ DOMAIN s.red = DOMAIN s.cl
         /\ \A i \in DOMAIN s.cl : s.irr[i] + s.red[i] > 0 /\ i <= s.last
         /\ \A i, j \in DOMAIN s.cl : (i # j /\ s.cl[i] = s.cl[j]) => (Unit(s.cl[i]) \/ s.unsat)
=============================================================================

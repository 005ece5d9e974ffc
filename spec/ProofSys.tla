------------------------------ MODULE ProofSys ------------------------------
(***************************************************************************)
(* The proof system behind varisat's proofs: clauses with identifiers,     *)
(* unit propagation along a hint sequence, and what it takes to add,       *)
(* delete and claim something.  Shared by the specifications of the        *)
(* checker (ProofRaw), of the steps shown to proof processors (ProofLive)  *)
(* and of LRAT and DRAT files (Lrat, Drat).                                *)
(***************************************************************************)
EXTENDS Base

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
EmptyFcn == [x \in {} |-> {}]

(* Propagate along hints: cl maps identifiers to clauses, asg is the set of *)
(* true literals.  "conf": the last hint is falsified and every earlier one *)
(* was unit; "go": no conflict; "bad": a hint is absent, not unit, or comes *)
(* after the conflict.                                                      *)
HintStep(cl, acc, id) ==
  IF acc.st # "go" \/ id \notin DOMAIN cl THEN [acc EXCEPT !.st = "bad"]
  ELSE LET c == cl[id]
           open == {l \in c : -l \notin acc.a}
       IN IF open = {} THEN [acc EXCEPT !.st = "conf"]
          ELSE IF Cardinality(open) = 1
                  /\ (\A l \in open : l \notin acc.a)
               THEN [acc EXCEPT !.a = @ \cup open]
          ELSE [acc EXCEPT !.st = "bad"]
Propagate(cl, asg, hints) ==
  FoldLeft(LAMBDA acc, id : HintStep(cl, acc, id), [st |-> "go", a |-> asg], hints)
(* the clause C follows by propagation along the hints *)
Implied(cl, C, hints) ==
  Consistent(C) /\ Propagate(cl, {-l : l \in C}, hints).st = "conf"

(* Unhinted unit propagation to a fixpoint over a set of clauses.          *)
RECURSIVE Fix(_, _)
Fix(cls, asg) ==
  LET open(c) == {l \in c : -l \notin asg}
      units == {open(c) : c \in {c \in cls : c \cap asg = {} /\ Cardinality(open(c)) <= 1}}
  IN IF {} \in units THEN [conf |-> TRUE, a |-> asg]
     ELSE IF units = {} THEN [conf |-> FALSE, a |-> asg]
     ELSE LET new == asg \cup UNION units
          IN IF ~Consistent(new) THEN [conf |-> TRUE, a |-> new]
             ELSE Fix(cls, new)
Rup(cls, C) == Consistent(C) => Fix(cls, {-l : l \in C}).conf

Satisfies(M, C) == \E l \in C : l \in M

(* sorted the way varisat orders literals: by variable, positive first *)
Sorted(q) == \A i \in 1..(Len(q) - 1) :
  \/ Abs(q[i]) < Abs(q[i + 1])
  \/ Abs(q[i]) = Abs(q[i + 1]) /\ q[i] > q[i + 1]
=============================================================================

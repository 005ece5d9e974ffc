-------------------------------- MODULE Base --------------------------------
(* Literals are non-zero integers, clauses sets (or sequences) of literals. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Abs(l) == IF l < 0 THEN -l ELSE l
Rng(q) == {q[i] : i \in DOMAIN q}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
VarsOf(L) == {Abs(l) : l \in L}
Consistent(L) == \A l \in L : -l \notin L
Tautology(L) == ~Consistent(L)
If(c, lab) == IF c THEN {lab} ELSE {}
=============================================================================

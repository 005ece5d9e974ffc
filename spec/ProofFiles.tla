----------------------------- MODULE ProofFiles -----------------------------
(***************************************************************************)
(* DRAT and LRAT proof files, textual and binary: how bytes are read, and   *)
(* what makes the steps a proof of unsatisfiability of a formula.           *)
(* A step is [a |-> TRUE, id, c, h] (addition) or [a |-> FALSE, id, c, h]   *)
(* (deletion); DRAT steps have no id and no hints, LRAT deletions list the  *)
(* deleted identifiers as h.                                                *)
(***************************************************************************)
EXTENDS ProofSys

(* --- words of a text ----------------------------------------------------*)
(* numbers are <<value>>, the letter d is <<>>, anything else spoils it     *)
LexInit == [w |-> <<>>, n |-> 0, dig |-> FALSE, neg |-> FALSE, d |-> FALSE, bad |-> FALSE]
EndWord(s) ==
  IF s.dig THEN [s EXCEPT !.w = Append(@, <<IF s.neg THEN -s.n ELSE s.n>>), !.n = 0, !.dig = FALSE, !.neg = FALSE]
  ELSE IF s.d THEN [s EXCEPT !.w = Append(@, <<>>), !.d = FALSE]
  ELSE IF s.neg THEN [s EXCEPT !.bad = TRUE]
  ELSE s
LexByte(s, b) ==
  CASE s.bad -> s
    [] b \in {32, 10} -> EndWord(s)
    [] b = 45 -> IF s.dig \/ s.neg \/ s.d THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.neg = TRUE]
    [] b \in 48..57 -> IF s.d \/ s.n > 200000000 THEN [s EXCEPT !.bad = TRUE]
                       ELSE [s EXCEPT !.n = @ * 10 + (b - 48), !.dig = TRUE]
    [] b = 100 -> IF s.dig \/ s.neg \/ s.d THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.d = TRUE]
    [] OTHER -> [s EXCEPT !.bad = TRUE]
Words(by) ==
  LET s == FoldLeft(LexByte, LexInit, by)
      \* the last line is complete
      open == by # <<>> /\ by[Len(by)] # 10
  IN [w |-> s.w, bad |-> s.bad \/ open]

(* --- numbers of a binary file -------------------------------------------*)
(* a step starts with a or d; numbers are little endian groups of 7 bits    *)
BinInit == [w |-> <<>>, n |-> 0, m |-> 1, bad |-> FALSE, head |-> TRUE, zero |-> 0]
(* zeros(h): how many zero numbers end the step with head h                 *)
BinByte(s, b, zeros(_)) ==
  IF s.bad THEN s
  ELSE IF s.head
  THEN IF b \in {97, 100} THEN [s EXCEPT !.w = Append(@, <<b>>), !.head = FALSE, !.zero = zeros(b)]
       ELSE [s EXCEPT !.bad = TRUE]
  ELSE IF s.m > 200000000 THEN [s EXCEPT !.bad = TRUE]
  ELSE LET n == s.n + (b % 128) * s.m
       IN IF b >= 128 THEN [s EXCEPT !.n = n, !.m = @ * 128]
          ELSE LET z == IF n = 0 THEN s.zero - 1 ELSE s.zero
               IN [s EXCEPT !.w[Len(s.w)] = Append(@, n), !.n = 0, !.m = 1, !.zero = z, !.head = z = 0]
(* binary words: one sequence <<head, numbers ...>> per step *)
BinSteps(by, zeros(_)) ==
  LET s == FoldLeft(LAMBDA a, b : BinByte(a, b, zeros), BinInit, by)
  IN [w |-> s.w, bad |-> s.bad \/ ~s.head]

Uncode(n) == IF n % 2 = 0 THEN n \div 2 ELSE -(n \div 2)     \* literal of a binary file

(* --- DRAT ----------------------------------------------------------------*)
St(a, id, c, h) == [a |-> a, id |-> id, c |-> c, h |-> h]
DratTextStep(s, x) ==     \* [q steps, c literals, del, bad]
  IF x = <<>> THEN IF s.del \/ s.c # <<>> THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.del = TRUE]
  ELSE IF x[1] = 0 THEN [s EXCEPT !.q = Append(@, St(~s.del, 0, s.c, <<>>)), !.c = <<>>, !.del = FALSE]
  ELSE [s EXCEPT !.c = Append(@, x[1])]
DratText(by) ==
  LET l == Words(by)
      s == FoldLeft(DratTextStep, [q |-> <<>>, c |-> <<>>, del |-> FALSE, bad |-> l.bad], l.w)
  IN [q |-> s.q, bad |-> s.bad \/ s.del \/ s.c # <<>>]
DratBin(by) ==
  LET l == BinSteps(by, LAMBDA h : 1)
      one(w) == St(w[1] = 97, 0, [k \in 1..(Len(w) - 2) |-> Uncode(w[k + 1])], <<>>)
  IN IF l.bad THEN [q |-> <<>>, bad |-> TRUE]
     ELSE [q |-> [k \in DOMAIN l.w |-> one(l.w[k])],
           bad |-> \E k \in DOMAIN l.w : \E m \in 2..(Len(l.w[k]) - 1) : l.w[k][m] < 2]

(* clauses of the formula with their number of copies *)
Count(f, C) == IF C \in DOMAIN f THEN f[C] ELSE 0
DAdd(f, C) == (C :> (Count(f, C) + 1)) @@ f
DDel(f, C) == IF f[C] = 1 THEN Without(f, {C}) ELSE [f EXCEPT ![C] = @ - 1]
DratInit(f0) == FoldLeft(LAMBDA f, c : DAdd(f, Rng(c)), EmptyFcn, f0)
DratStep(s, e, nv) ==
  LET C == Rng(e.c)
  IN IF s.v # {} THEN s
     ELSE IF ~(VarsOf(C) \subseteq 1..nv) THEN [s EXCEPT !.v = {"drat-variable"}]
     ELSE IF e.a THEN [f |-> DAdd(s.f, C), v |-> If(~Rup(DOMAIN s.f, C), "drat-not-implied")]
     ELSE IF Count(s.f, C) = 0 THEN [s EXCEPT !.v = {"drat-delete-absent"}]
     ELSE [s EXCEPT !.f = DDel(@, C)]
(* broken rules of a DRAT proof of f0; whole: it must be a refutation      *)
DratRules(f0, d, nv, whole) ==
  IF d.bad THEN {"drat-format"}
  ELSE LET s == FoldLeft(LAMBDA a, e : DratStep(a, e, nv), [f |-> DratInit(f0), v |-> {}], d.q)
       IN IF s.v # {} THEN s.v ELSE If(whole /\ ~Rup(DOMAIN s.f, {}), "drat-no-refutation")
SameDrat(d, e) == d.q = e.q

(* --- LRAT ----------------------------------------------------------------*)
(* text: id lits 0 hints 0   or   id d ids 0                                *)
LratTextStep(s, x) ==     \* p: what is read  0 start, 1 id seen, 2 literals, 3 hints, 4 deletions
  CASE s.bad -> s
    [] x = <<>> -> IF s.p = 1 THEN [s EXCEPT !.p = 4] ELSE [s EXCEPT !.bad = TRUE]
    [] s.p = 0 -> IF x[1] <= 0 THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.p = 1, !.id = x[1], !.c = <<>>, !.h = <<>>]
    [] s.p \in {1, 2} -> IF x[1] = 0 THEN [s EXCEPT !.p = 3] ELSE [s EXCEPT !.p = 2, !.c = Append(@, x[1])]
    [] x[1] < 0 -> [s EXCEPT !.bad = TRUE]
    [] s.p = 3 -> IF x[1] = 0 THEN [s EXCEPT !.p = 0, !.q = Append(@, St(TRUE, s.id, s.c, s.h))]
                  ELSE [s EXCEPT !.h = Append(@, x[1])]
    [] OTHER -> IF x[1] = 0 THEN [s EXCEPT !.p = 0, !.q = Append(@, St(FALSE, s.id, <<>>, s.h))]
                ELSE [s EXCEPT !.h = Append(@, x[1])]
LratText(by) ==
  LET l == Words(by)
      s == FoldLeft(LratTextStep, [q |-> <<>>, p |-> 0, id |-> 0, c |-> <<>>, h |-> <<>>, bad |-> l.bad], l.w)
  IN [q |-> s.q, bad |-> s.bad \/ s.p # 0]
(* binary: a id lits 0 hints 0   or   d ids 0, identifiers doubled          *)
Before(w) == CHOOSE k \in DOMAIN w : w[k] = 0 /\ \A m \in 1..(k - 1) : w[m] # 0
LratBin(by) ==
  LET l == BinSteps(by, LAMBDA h : IF h = 97 THEN 2 ELSE 1)
      body(w) == SubSeq(w, 2, Len(w) - 1)
      half(q) == [k \in DOMAIN q |-> q[k] \div 2]
      one(w) ==
        LET b == body(w)
        IN IF w[1] = 100 THEN St(FALSE, 0, <<>>, half(b))
           ELSE LET z == Before(b)
                IN St(TRUE, b[1] \div 2, [k \in 1..(z - 2) |-> Uncode(b[k + 1])], half(SubSeq(b, z + 1, Len(b))))
      fine(w) ==
        LET b == body(w)
        IN IF w[1] = 100 THEN \A k \in DOMAIN b : b[k] % 2 = 0
           ELSE /\ b # <<>> /\ b[1] # 0 /\ b[1] % 2 = 0
                /\ \A k \in (Before(b) + 1)..Len(b) : b[k] % 2 = 0
                /\ \A k \in 2..(Before(b) - 1) : b[k] >= 2
  IN IF l.bad \/ \E k \in DOMAIN l.w : ~fine(l.w[k]) THEN [q |-> <<>>, bad |-> TRUE]
     ELSE [q |-> [k \in DOMAIN l.w |-> one(l.w[k])], bad |-> FALSE]

LratInit(f0) == [cl |-> [k \in 1..Len(f0) |-> Rng(f0[k])], last |-> Len(f0), v |-> {}, empty |-> \E k \in DOMAIN f0 : f0[k] = <<>>]
LratStep(s, e, nv) ==
  LET C == Rng(e.c)
  IN IF s.v # {} THEN s
     ELSE IF e.a
     THEN [s EXCEPT !.cl = (e.id :> C) @@ @, !.last = e.id, !.empty = @ \/ C = {},
             !.v = If(e.id <= s.last, "lrat-id")
                   \cup If(~(VarsOf(C) \subseteq 1..nv), "lrat-variable")
                   \cup If(~(Rng(e.h) \subseteq DOMAIN s.cl), "lrat-hint-absent")
                   \cup If(Rng(e.h) \subseteq DOMAIN s.cl /\ ~Implied(s.cl, C, e.h), "lrat-not-implied")]
     ELSE IF ~(Rng(e.h) \subseteq DOMAIN s.cl) \/ Cardinality(Rng(e.h)) # Len(e.h) THEN [s EXCEPT !.v = {"lrat-delete-absent"}]
     ELSE [s EXCEPT !.cl = Without(@, Rng(e.h))]
LratRules(f0, d, nv, whole) ==
  IF d.bad THEN {"lrat-format"}
  ELSE LET s == FoldLeft(LAMBDA a, e : LratStep(a, e, nv), LratInit(f0), d.q)
       IN s.v \cup If(s.v = {} /\ whole /\ ~s.empty, "lrat-no-refutation")

(* the additions, each with the set of identifiers deleted since the one    *)
(* before; deletions after the last addition do not matter                  *)
Normal(q) ==
  FoldLeft(LAMBDA a, e : IF e.a THEN [q |-> Append(a.q, <<e.id, e.c, e.h, a.d>>), d |-> {}]
                         ELSE [a EXCEPT !.d = @ \cup Rng(e.h)],
           [q |-> <<>>, d |-> {}], q).q
SameLrat(d, e) == Normal(d.q) = Normal(e.q)
(* the clauses derived, whatever the hints: the same derivation checked at  *)
(* another time may propagate in another order                              *)
Derived(q) == FoldLeft(LAMBDA a, e : IF e.a THEN Append(a, <<e.id, Rng(e.c)>>) ELSE a, <<>>, q)
SameDerivation(d, e) == Derived(d.q) = Derived(e.q)
=============================================================================

------------------------------ MODULE DimacsMC ------------------------------
(* The automaton of Dimacs against the definition of the format:             *)
(* - the text is a sequence of lines, ended by LF or CR;                     *)
(* - lines starting with c say nothing; one line may start with p, and is    *)
(*   then the header;                                                        *)
(* - the rest is a sequence of numbers -?[0-9]+ separated by blanks and line *)
(*   ends, in which 0 ends a clause, and no clause is left open;             *)
(* - literals are at most MaxVar; the header must state the clause count and *)
(*   a variable count which is not exceeded.                                 *)
(* Words are built from the pieces Alphabet; clauses are taken at any time.  *)
EXTENDS Dimacs
CONSTANTS Alphabet, MaxLen
VARIABLES w, len, s, taken
vars == <<w, len, s, taken>>

Split(q, Sep(_)) == \* the maximal runs between separators (also empty ones)
  LET go(a, b) == IF Sep(b) THEN [ls |-> Append(a.ls, a.l), l |-> <<>>] ELSE [a EXCEPT !.l = Append(@, b)]
      z == FoldLeft(go, [ls |-> <<>>, l |-> <<>>], q)
  IN Append(z.ls, z.l)
Lines(q) == Split(q, LAMBDA b : b \in {LF, CR})
Starts(l, b) == l # <<>> /\ l[1] = b
Tokens(l) == SelectSeq(Split(l, LAMBDA b : b = SP), LAMBDA t : t # <<>>)
Body(t) == IF Starts(t, Minus) THEN Tail(t) ELSE t
IsLit(t) == IsNumber(Body(t)) /\ NumLeq(Strip(Body(t)), MaxVarDigits)
LitOf(t) == IF Starts(t, Minus) THEN -Value(Strip(Body(t))) ELSE Value(Strip(Body(t)))
Flat(qs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qs)

Lang(q) ==
  LET ls == Lines(q)
      hs == SelectSeq(ls, LAMBDA l : Starts(l, 112))
      ts == Flat([i \in DOMAIN ls |-> IF Starts(ls[i], 99) \/ Starts(ls[i], 112) THEN <<>> ELSE Tokens(ls[i])])
      lits == \A i \in DOMAIN ts : IsLit(ts[i])
      nums == [i \in DOMAIN ts |-> LitOf(ts[i])]
      cs == Split(nums, LAMBDA x : x = 0)
      f == SubSeq(cs, 1, Len(cs) - 1)
      used == VarsOf(Rng(nums))
      hd == Header(hs[1])
      n == MaxOf({0} \cup used \cup (IF hs # <<>> THEN {hd.n} ELSE {}))
      ok == /\ Len(hs) <= 1
            /\ hs # <<>> => hd.ok
            /\ lits
            /\ cs[Len(cs)] = <<>>
            /\ hs # <<>> => /\ n = hd.n
                            /\ Digits(Len(f)) = hd.k
  IN IF ok THEN [ok |-> TRUE, f |-> f, n |-> n] ELSE [ok |-> FALSE, f |-> <<>>, n |-> 0]

Init == w = <<>> /\ len = 0 /\ s = Start /\ taken = <<>>
More == \E a \in Alphabet : /\ len < MaxLen
                            /\ w' = w \o a /\ len' = len + 1 /\ s' = Chunk(s, a) /\ UNCHANGED taken
Taking == s.f # <<>> /\ taken' = taken \o s.f /\ s' = Take(s) /\ UNCHANGED <<w, len>>
Next == More \/ Taking
Spec == Init /\ [][Next]_vars

Answer == LET e == Eof(s)
              ok == e.m # "dead" /\ Check(e) = ""
          IN IF ok THEN [ok |-> TRUE, f |-> taken \o e.f, n |-> e.n] ELSE [ok |-> FALSE, f |-> <<>>, n |-> 0]
Agrees == Eof(s).lax \/ Answer = Lang(w)
Type == /\ s.m \in {"sol", "gap", "minus", "num", "skip", "head", "dead"}
        /\ s.m = "dead" <=> s.err # ""
        /\ s.k = Len(taken) + Len(s.f)
        /\ (s.ln = 1 + Cardinality({i \in DOMAIN w : w[i] = LF}) \/ s.m = "dead")
Alphabet1 == {<<49>>, <<48>>, <<45>>, <<32>>, <<10>>, <<13>>, <<99>>, <<112>>, <<120>>}
Alphabet2 == {<<49>>, <<48>>, <<45>>, <<32>>, <<10>>, <<13>>, <<99>>, <<48,32>>,
              <<112,32,99,110,102,32,49,32,49>>, <<112,32,99,110,102,32,50>>, <<32,50,32,48>>,
              <<50,54,56,52,51,53,52,53,54>>, <<50,54,56,52,51,53,52,53>>, <<55>>, <<54>>}
=============================================================================

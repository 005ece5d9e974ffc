------------------------------- MODULE Dimacs -------------------------------
(* Reading DIMACS CNF, a byte at a time.                                     *)
(*                                                                           *)
(* The reader is an automaton whose input are bytes; reading a chunk is      *)
(* folding Byte over it, so nothing may depend on where chunks end.  Take,   *)
(* Eof and Check are its other actions.  DimacsMC compares the automaton     *)
(* with the language as the format defines it (lines, tokens, clauses).      *)
(*                                                                           *)
(* m: "sol" start of a line, "gap" after a blank, "minus" after a minus      *)
(*    sign, "num" within a number, "skip" within a comment, "head" within    *)
(*    the header, "dead" after an error, "end" after the end of the input    *)
(* neg, v: number being read     cur: literals of the clause being read      *)
(* f: clauses read since they were last taken   k: clauses read              *)
(* n: variable count    h: the header   hl: text of the header line          *)
(* ln: line   err, eln: the error and its line                               *)
(* lax: the text uses something that readers may or may not accept           *)
EXTENDS Base

MaxVar == 268435456
LF == 10
CR == 13
SP == 32
Minus == 45
NoHeader == [set |-> FALSE, n |-> 0, k |-> <<>>]

Start == [m |-> "sol", neg |-> FALSE, v |-> 0, cur |-> <<>>, f |-> <<>>, k |-> 0, n |-> 0,
          h |-> NoHeader, hl |-> <<>>, ln |-> 1, err |-> "", eln |-> 0, lax |-> FALSE]

Digit(b) == b >= 48 /\ b <= 57
Error(s, e) == [s EXCEPT !.m = "dead", !.err = e, !.eln = s.ln]

(* v * 10 + d, or -1 if that is no variable *)
Shift10(v, d) == IF v > 26843545 \/ (v = 26843545 /\ d > 6) THEN -1 ELSE v * 10 + d

(* -- the header ------------------------------------------------------------ *)
HdrBlank(b) == b \in {9, 11, 12, 32}
Words(q) ==
  LET go(a, b) == IF HdrBlank(b)
                  THEN (IF a.w = <<>> THEN a ELSE [ws |-> Append(a.ws, a.w), w |-> <<>>])
                  ELSE [a EXCEPT !.w = Append(a.w, b)]
      z == FoldLeft(go, [ws |-> <<>>, w |-> <<>>], q)
  IN IF z.w = <<>> THEN z.ws ELSE Append(z.ws, z.w)
IsNumber(q) == q # <<>> /\ \A i \in DOMAIN q : Digit(q[i])
Strip(q) == \* without leading zeros
  LET P == {i \in DOMAIN q : q[i] # 48} IN IF P = {} THEN <<>> ELSE SubSeq(q, CHOOSE i \in P : \A j \in P : i <= j, Len(q))
(* comparing numbers given by their digits, without leading zeros *)
NumLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Digits(n) == \* of a natural number, without leading zeros
  LET D[x \in 0..n] == IF x = 0 THEN <<>> ELSE Append(D[x \div 10], 48 + (x % 10)) IN D[n]
MaxVarDigits == <<50, 54, 56, 52, 51, 53, 52, 53, 54>>                \* 268435456
MaxCount == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>   \* 2^64 - 1
Value(q) == FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, q)

(* what a header line says: [ok, big, lax, n, k] *)
Header(q) ==
  LET w == Words(q)
      no == [ok |-> FALSE, big |-> FALSE, lax |-> FALSE, n |-> 0, k |-> <<>>]
      lax == \E i \in DOMAIN q : q[i] > 127 \/ q[i] \in {11, 12, 43} \/ q[i] < 9
  IN IF lax THEN [no EXCEPT !.lax = TRUE]
     ELSE IF Len(q) < 2 \/ q[1] # 112 \/ q[2] # SP THEN no
     ELSE IF Len(w) # 4 \/ w[2] # <<99, 110, 102>> THEN no
     ELSE IF ~IsNumber(w[3]) \/ ~IsNumber(w[4]) THEN no
     ELSE IF ~NumLeq(Strip(w[3]), MaxVarDigits) THEN [no EXCEPT !.big = TRUE]
     ELSE IF ~NumLeq(Strip(w[4]), MaxCount) THEN no
     ELSE [ok |-> TRUE, big |-> FALSE, lax |-> FALSE, n |-> Value(Strip(w[3])), k |-> Strip(w[4])]
EndHeader(s) ==
  LET x == Header(s.hl)
  IN IF x.lax THEN [Error(s, "header") EXCEPT !.lax = TRUE]
     ELSE IF ~x.ok THEN Error(s, "header")
     ELSE [s EXCEPT !.h = [set |-> TRUE, n |-> x.n, k |-> x.k], !.n = IF x.n > @ THEN x.n ELSE @]

(* -- bytes ----------------------------------------------------------------- *)
EndNumber(s) ==
  IF s.v = 0
  THEN [s EXCEPT !.f = Append(@, s.cur), !.k = @ + 1, !.cur = <<>>, !.neg = FALSE, !.lax = @ \/ s.neg]
  ELSE [s EXCEPT !.cur = Append(@, IF s.neg THEN -s.v ELSE s.v), !.n = @, !.v = 0, !.neg = FALSE]
(* the variables of a clause count once the clause is complete *)
Counted(s) == IF s.f = <<>> THEN s
              ELSE LET c == Rng(s.f[Len(s.f)]) IN
                   IF c = {} THEN s ELSE LET m == MaxOf(VarsOf(c)) IN IF m > s.n THEN [s EXCEPT !.n = m] ELSE s
Blank(s, b) ==
  LET t == IF s.m = "num" THEN (IF s.v = 0 THEN Counted(EndNumber(s)) ELSE EndNumber(s)) ELSE s
  IN [t EXCEPT !.m = IF b = SP THEN "gap" ELSE "sol"]
NextLine(s, b) == IF b = LF THEN [s EXCEPT !.ln = @ + 1] ELSE s

Byte(s, b) ==
  CASE s.m = "dead" -> s
    [] s.m = "skip" -> IF b \in {LF, CR} THEN NextLine([s EXCEPT !.m = "sol"], b) ELSE s
    [] s.m = "head" -> IF b \in {LF, CR}
                       THEN LET t == EndHeader(s) IN IF t.m = "dead" THEN t ELSE NextLine([t EXCEPT !.m = "sol"], b)
                       ELSE [s EXCEPT !.hl = Append(@, b)]
    [] s.m \in {"sol", "gap", "minus", "num"} ->
         CASE Digit(b) -> LET x == Shift10(IF s.m = "num" THEN s.v ELSE 0, b - 48)
                          IN IF x < 0 THEN Error(s, "big") ELSE [s EXCEPT !.m = "num", !.v = x]
           [] b = Minus /\ s.m \in {"sol", "gap"} -> [s EXCEPT !.m = "minus", !.neg = TRUE]
           [] b \in {SP, LF, CR} /\ s.m # "minus" -> NextLine(Blank(s, b), b)
           [] b = 99 /\ s.m = "sol" -> [s EXCEPT !.m = "skip"]
           [] b = 112 /\ s.m = "sol" /\ ~s.h.set -> [s EXCEPT !.m = "head", !.hl = <<b>>]
           [] OTHER -> Error(s, "char")

Chunk(s, bs) == FoldLeft(Byte, s, bs)

(* the clauses read so far, which are handed over *)
Take(s) == [s EXCEPT !.f = <<>>]

Eof(s) ==
  IF s.m = "dead" THEN s
  ELSE IF s.m = "minus" THEN Error(s, "open")
  ELSE LET t == CASE s.m = "head" -> EndHeader(s) [] s.m = "num" -> Blank(s, SP) [] OTHER -> s
       IN IF t.m = "dead" THEN t ELSE IF t.cur # <<>> THEN Error(t, "open") ELSE [t EXCEPT !.m = "end"]

(* does the header, if any, agree with what was read?  "", "vars" or "clauses" *)
Check(s) ==
  IF ~s.h.set THEN "" ELSE IF s.n # s.h.n THEN "vars" ELSE IF Digits(s.k) # s.h.k THEN "clauses" ELSE ""

(* reading a whole text *)
Read(bs) ==
  LET s == Eof(Chunk(Start, bs))
      c == IF s.m = "dead" THEN s.err ELSE Check(s)
  IN [ok |-> c = "", err |-> c, ln |-> IF s.m = "dead" THEN s.eln ELSE 0, lax |-> s.lax,
      f |-> s.f, n |-> s.n, k |-> s.k, h |-> s.h]
=============================================================================

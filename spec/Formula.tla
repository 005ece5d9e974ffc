------------------------------ MODULE Formula ------------------------------
(* A formula container: a variable count and a sequence of clauses, each a   *)
(* sequence of literals; and literals with their encodings.                  *)
EXTENDS Base
Empty == [n |-> 0, f |-> <<>>]
Max2(a, b) == IF a > b THEN a ELSE b
SeqMax(q) == FoldLeft(LAMBDA a, l : Max2(a, Abs(l)), 0, q)
AddClause(x, c) == [n |-> Max2(x.n, SeqMax(c)), f |-> Append(x.f, c)]
NewVars(x, k) == [x EXCEPT !.n = @ + k]      \* the variables x.n+1 .. x.n+k
SetCount(x, k) == [x EXCEPT !.n = Max2(@, k)]
FromClauses(q) == FoldLeft(AddClause, Empty, q)

Index(l) == Abs(l) - 1
Code(l) == 2 * Index(l) + (IF l < 0 THEN 1 ELSE 0)
FromCode(c) == IF c % 2 = 0 THEN (c \div 2) + 1 ELSE -((c \div 2) + 1)
Lit(i, pol) == IF pol THEN i + 1 ELSE -(i + 1)
============================================================================

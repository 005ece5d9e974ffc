---------------------------- MODULE DimacsTrace ----------------------------
(* Recorded readings of DIMACS texts, and formula containers.  One line per  *)
(* case; y: kind of case, b: bytes.                                          *)
(*  w  the text was read at once: r (error, "ok" if none), ln, f, n          *)
(*  k  the text was read in chunks: ev, and w as above                       *)
(*  i  the text was read from a reader, which failed after `bad` bytes if    *)
(*     bad >= 0; the callback failed at call cb if cb > 0; r, f, n           *)
(*  s  the solver, h  the checker loaded the text: r; for the solver sat     *)
(*  c  operations on containers: ev                                          *)
(*  l  operations on literals: ev                                            *)
EXTENDS Dimacs, Json, IOUtils
F == INSTANCE Formula
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i
Init == h \in 1..Len(H) /\ i = 0

Whole(x, e) == \* x: [r, ln, f, n]   e: Read(text)
  IF e.lax THEN {}
  ELSE IF e.ok /\ x.r # "ok" THEN {IF x.r \in {"header", "vars", "clauses"} THEN "head-refused" ELSE "dim-refused"}
  ELSE IF ~e.ok /\ x.r = "ok" THEN {IF e.err \in {"header", "vars", "clauses"} THEN "head-accepted" ELSE "dim-accepted"}
  ELSE IF e.ok THEN If(x.f # e.f, "dim-clauses") \cup If(x.n # e.n, "dim-vars")
  ELSE If(x.ln # 0 /\ e.ln # 0 /\ x.ln # e.ln, "dim-line")

(* -- chunks: the state of the automaton along the events -------------------- *)
ChunkEv(b, a, e) ==
  LET s == a.s
      dead == s.m = "dead"
  IN IF a.stop THEN a
     ELSE CASE e.o = "chunk" ->
                 IF dead THEN [a EXCEPT !.stop = TRUE, !.labs = If(e.r # "prev", "chunk-after-error")]
                 ELSE LET t == Chunk(s, SubSeq(b, a.p + 1, e.t))
                          v == IF t.lax THEN {}
                               ELSE If((t.m = "dead") # (e.r # "ok"), "chunk-accept")
                                    \cup If(t.m = "dead" /\ e.r # "ok" /\ e.ln # t.eln, "chunk-line")
                      IN [a EXCEPT !.s = t, !.p = e.t, !.labs = v, !.stop = t.lax \/ v # {}]
            [] e.o = "stat" ->
                 LET v == If(e.k # s.k \/ e.n # s.n, "chunk-counts")
                          \cup If(e.hs # s.h.set \/ (s.h.set /\ (e.hn # s.h.n \/ e.hk # s.h.k)), "chunk-header")
                 IN [a EXCEPT !.labs = v, !.stop = v # {}]
            [] e.o = "take" ->
                 LET v == If(e.f # s.f, "chunk-clauses") \cup If(e.n # s.n, "chunk-counts")
                 IN [a EXCEPT !.s = Take(s), !.labs = v, !.stop = v # {}]
            [] e.o = "eof" ->
                 LET t == Eof(s)
                     v == IF t.lax THEN {}
                          ELSE If((t.m = "dead") # (e.r # "ok"), "chunk-accept")
                               \cup If(t.m = "dead" /\ e.r # "ok" /\ e.ln # t.eln, "chunk-line")
                 IN [a EXCEPT !.s = t, !.labs = v, !.stop = t.lax \/ v # {} \/ t.m = "dead"]
            [] e.o = "check" ->
                 LET v == If(e.r # (IF Check(s) = "" THEN "ok" ELSE Check(s)), "chunk-check")
                 IN [a EXCEPT !.labs = v, !.stop = v # {}]
Chunks(x) ==
  LET wh == Whole(x.w, Read(x.b))
      z == FoldLeft(LAMBDA a, e : ChunkEv(x.b, a, e), [s |-> Start, p |-> 0, labs |-> {}, stop |-> FALSE], x.ev)
  IN IF wh # {} THEN wh ELSE z.labs

Reader(x) ==
  LET e == Read(x.b)
      wh == Whole(x.w, e)
  IN IF wh # {} THEN wh
     ELSE IF x.bad >= 0 \/ x.cb > 0 THEN If(x.r = "ok", "reader-error-lost")
     ELSE IF e.lax THEN {}
     ELSE If(e.ok # (x.r = "ok"), "reader-accept") \cup If(e.ok /\ x.r = "ok" /\ (x.f # e.f \/ x.n # e.n), "reader-clauses")

Used(f) == UNION {VarsOf(Rng(f[k])) : k \in DOMAIN f}
Satisfiable(f) ==
  \E P \in SUBSET Used(f) :
     \A k \in DOMAIN f : \E j \in DOMAIN f[k] : IF f[k][j] > 0 THEN f[k][j] \in P ELSE -f[k][j] \notin P
Load(x) ==
  LET e == Read(x.b)
  IN IF e.lax THEN {}
     ELSE If(e.ok # (x.r = "ok"), IF e.err \in {"header", "vars", "clauses"} THEN "head-load" ELSE "dim-load")
          \cup If(x.y = "s" /\ e.ok /\ x.r = "ok" /\ x.sat # (IF Satisfiable(e.f) THEN "T" ELSE "F"), "dim-load-answer")
          \cup If(x.y = "s" /\ e.ok /\ x.r = "ok" /\ x.sat = "T" /\ ~(Used(e.f) \subseteq VarsOf(Rng(x.mv)) /\ VarsOf(Rng(x.mv)) \subseteq 1..e.n
                                                                        /\ \A k \in DOMAIN e.f : Rng(e.f[k]) \cap Rng(x.mv) # {}), "dim-load-model")

(* -- containers: registers 1..3 --------------------------------------------- *)
ContEv(a, e) ==
  LET r == a.reg
      x == r[e.a]
      set(y) == [a EXCEPT !.reg[e.a] = y]
      bad(c, l) == [a EXCEPT !.labs = @ \cup If(c, l)]
  IN CASE e.o = "new" -> set(F!Empty)
       [] e.o = "add" -> set(F!AddClause(x, e.c))
       [] e.o = "nv" -> LET k == Len(e.c) IN
                        [set(F!NewVars(x, k)) EXCEPT !.labs = @ \cup If(e.c # [q \in 1..k |-> x.n + q], "form-new-var")]
       [] e.o = "svc" -> set(F!SetCount(x, e.n))
       [] e.o = "clone" -> [a EXCEPT !.reg[e.z] = x]
       [] e.o = "from" -> [a EXCEPT !.reg[e.z] = F!FromClauses(x.f)]
       [] e.o = "eq" -> bad(e.r # (x = r[e.z]), "form-equality")
       [] e.o = "dump" -> bad(e.f # x.f \/ e.len # Len(x.f) \/ e.em # (x.f = <<>>), "form-clauses")
       [] e.o = "count" -> bad(e.n # x.n, "form-vars")
       \* writing: with and without header, and reading back
       [] e.o = "write" ->
            LET d == Read(e.b)
            IN [a EXCEPT !.labs = @ \cup If(~d.ok \/ d.f # x.f, "form-written") \cup If(d.ok /\ d.n # x.n, "form-written-vars")
                                    \cup If(d.ok /\ e.hd /\ ~d.h.set, "form-written-header")
                                    \cup If(~e.same, "form-read-back")]
       [] e.o = "body" ->
            LET d == Read(e.b) IN bad(~d.ok \/ d.f # x.f \/ d.h.set, "form-written")
Cont(x) == FoldLeft(ContEv, [reg |-> <<F!Empty, F!Empty, F!Empty>>, labs |-> {}], x.ev).labs

(* -- literals ---------------------------------------------------------------- *)
LitEv(e) ==
  LET l == e.l IN
  If(e.dimacs # l \/ e.text # l \/ e.debug # l, "lit-dimacs")
  \cup If(e.index # F!Index(l) \/ e.var # Abs(l) \/ e.vindex # F!Index(l), "lit-index")
  \cup If(e.code # F!Code(l) \/ e.fromcode # F!FromCode(F!Code(l)) \/ e.fromindex # F!Lit(F!Index(l), l > 0), "lit-code")
  \cup If(e.neg # (l < 0) \/ e.pos # (l > 0), "lit-sign")
  \cup If(e.no # -l \/ e.xt # -l \/ e.xf # l \/ e.nono # l, "lit-negation")
  \cup If(e.vpos # Abs(l) \/ e.vneg # -Abs(l) \/ e.vlit # <<Abs(l), -Abs(l)>> \/ e.fromvar # Abs(l), "lit-of-var")
  \cup If(e.map # (IF l > 0 THEN e.to ELSE -e.to), "lit-map")
  \cup If(e.eq # (l = e.m) \/ e.lt # (F!Code(l) < F!Code(e.m)) \/ (l = e.m /\ ~e.hash), "lit-order")
  \cup If(e.max # MaxVar \/ e.maxvar # MaxVar, "lit-max")
Lits(x) == UNION {LitEv(x.ev[k]) : k \in DOMAIN x.ev}

Judge(x) ==
  CASE x.y = "w" -> Whole(x, Read(x.b))
    [] x.y = "k" -> Chunks(x)
    [] x.y = "i" -> Reader(x)
    [] x.y \in {"s", "h"} -> Load(x)
    [] x.y = "c" -> Cont(x)
    [] x.y = "l" -> Lits(x)
    [] x.y = "crash" -> {"dim-crash", "chunk-crash", "head-crash", "form-crash"}

Next == /\ i = 0 /\ i' = 1 /\ h' = h
        /\ LET v == Judge(H[h]) IN IF v # {} THEN PrintT(<<"VIOL", h, 1, v>>) ELSE TRUE
View == <<h, i>>
Spec == Init /\ [][Next]_<<h, i>>
=============================================================================

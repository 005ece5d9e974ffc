------------------------------ MODULE FileTrace ------------------------------
(* Recorded single-shot runs and the proof files they left:                  *)
(* dt, db: DRAT text and binary; lt, lb: LRAT written during solving;        *)
(* st, sb: LRAT made by the checker from the stored native proof;            *)
(* lm, sm: 1 when present.                                                   *)
EXTENDS ProofFiles, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i
Init == h \in 1..Len(H) /\ i = 0
Judge(x) ==
  LET unsat == x.r = "F"
      dt == DratText(x.dt)
      db == DratBin(x.db)
      lt == LratText(x.lt)
      lb == LratBin(x.lb)
      st == LratText(x.st)
      sb == LratBin(x.sb)
  IN DratRules(x.f0, dt, x.nv, unsat)
     \cup (IF db.bad THEN {"drat-format"} ELSE If(~SameDrat(dt, db), "drat-encodings-differ"))
     \cup (IF ~SameDrat(dt, db) THEN DratRules(x.f0, db, x.nv, unsat) ELSE {})
     \cup LratRules(x.f0, lt, x.nv, unsat) \cup LratRules(x.f0, lb, x.nv, unsat)
     \cup If(~lt.bad /\ ~lb.bad /\ ~SameLrat(lt, lb), "lrat-encodings-differ")
     \cup (IF x.sk = "ok"
           THEN LratRules(x.f0, st, x.nv, unsat) \cup LratRules(x.f0, sb, x.nv, unsat)
                \cup If(~st.bad /\ ~sb.bad /\ ~SameLrat(st, sb), "lrat-encodings-differ")
                \cup If(~st.bad /\ ~lt.bad /\ ~SameDerivation(st, lt), "lrat-stored-differs")
           ELSE {"lrat-stored-refused"})
     \cup If(\E k \in DOMAIN x.rs : x.rs[k] # x.r, "files-change-answer")
Next == /\ i = 0 /\ i' = 1 /\ h' = h
        /\ LET v == Judge(H[h]) IN IF v # {} THEN PrintT(<<"VIOL", h, 1, v>>) ELSE TRUE
View == <<h, i>>
Spec == Init /\ [][Next]_<<h, i>>
==============================================================================

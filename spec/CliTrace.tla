------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the program.  y: "solve" or "check".                     *)
(*  b      the formula text                                                  *)
(*  args, cfg, inp, prf   whether these were fine ("ok", "bad", ...)         *)
(*  fmt    proof format ("" when none is kept)   pf  the proof file          *)
(*  lim    bytes the target takes (-1: any number), pl  bytes of the proof   *)
(*         with a target that takes them all                                 *)
(*  code, s, v (literals printed), vend, t, odd (other lines), errors        *)
(*  check: good (the proof is complete and valid), T (its transcript steps), *)
(*         single (all additions come first), unsat, lt, lb: LRAT files made *)
EXTENDS Cli, Json, IOUtils
PF == INSTANCE ProofFiles
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i
Init == h \in 1..Len(H) /\ i = 0

Used(f) == UNION {VarsOf(Rng(f[k])) : k \in DOMAIN f}
Satisfiable(f) ==
  \E P \in SUBSET Used(f) :
     \A k \in DOMAIN f : \E j \in DOMAIN f[k] : IF f[k][j] > 0 THEN f[k][j] \in P ELSE -f[k][j] \notin P

(* is what the file holds a proof for the formula?  T: the results that a     *)
(* checker takes from a native proof it accepts                               *)
Proof(x, f, n, refuted) ==
  CASE x.fmt = "drat" -> PF!DratRules(f, PF!DratText(x.pf), n, refuted)
    [] x.fmt = "binary-drat" -> PF!DratRules(f, PF!DratBin(x.pf), n, refuted)
    [] x.fmt = "lrat" -> PF!LratRules(f, PF!LratText(x.pf), n, refuted)
    [] x.fmt = "clrat" -> PF!LratRules(f, PF!LratBin(x.pf), n, refuted)
    [] x.fmt = "varisat" -> If(x.good = "F", "cli-proof-refused")
         \cup If(~\E k \in DOMAIN x.T : x.T[k].k = (IF refuted THEN "unsat" ELSE "model")
                                       \/ (refuted /\ x.T[k].k = "add" /\ x.T[k].c = <<>>), "cli-proof-other")
    [] OTHER -> {}

(* a formula with too many variables is refuted by its proof only *)
Small(f) == Cardinality(Used(f)) <= 9

Solve(x) ==
  LET d == Read(x.b)
      truth == IF ~d.ok THEN "?" ELSE IF Small(d.f) THEN (IF Satisfiable(d.f) THEN "T" ELSE "F") ELSE "?"
      env == [args |-> x.args, cfg |-> IF x.cfg = "ok" /\ ~ConfigFine(x.conf) THEN "bad" ELSE x.cfg, inp |-> x.inp, prf |-> x.prf, text |-> d, truth |-> truth,
              lost |-> x.lim >= 0 /\ x.lim < x.pl]
      os == SolveOutcomes(env)
      hit == {o \in os : Reports(x, o)}
      M == Rng(x.v) \ {0}
  IN If(x.odd > 0, "cli-noise")
     \cup (IF hit = {} THEN
             {IF os = {Info} THEN "cli-info"
              ELSE IF os \cap {Sat, Unsat} # {} THEN (IF x.code \in {10, 20} THEN "cli-answer-wrong" ELSE "cli-no-answer")
              ELSE IF env.lost THEN "cli-proof-lost" ELSE "cli-answer-on-error"}
           ELSE IF d.ok /\ hit \cap {Sat, Unsat} # {}
           THEN LET p == Proof(x, d.f, d.n, Unsat \in hit)
                IN If(p # {}, "cli-proof-invalid") \cup p
                   \cup If(Sat \in hit
                           /\ (~x.vend \/ ~Consistent(M) \/ ~(VarsOf(M) \subseteq 1..d.n) \/ Cardinality(M) # Len(x.v) - 1
                               \/ \E k \in DOMAIN d.f : Rng(d.f[k]) \cap M = {}), "cli-model")
           ELSE {})

Check2(x) ==
  LET d == Read(x.b)
      env == [args |-> x.args, inp |-> x.inp, prf |-> x.prf, text |-> d, good |-> x.good,
              lost |-> x.lim >= 0 /\ x.lim < x.pl]
      os == CheckOutcomes(env)
      hit == {o \in os : Reports(x, o)}
      ran == ~env.lost /\ env.args = "ok" /\ env.inp = "ok" /\ env.prf = "ok" /\ d.ok
      lrat(by, bin) == PF!LratRules(d.f, IF bin THEN PF!LratBin(by) ELSE PF!LratText(by), x.nv, x.unsat)
  IN If(x.odd > 0, "chk-noise")
     \cup If(hit = {}, IF os = {Info} THEN "cli-info" ELSE IF env.lost THEN "chk-lrat-lost"
                       ELSE IF Verified \in os THEN "chk-refused" ELSE "chk-accepted")
     \cup If(hit # {} /\ ran /\ x.t \notin Transcripts(x.T), "chk-transcript")
     \cup If(hit # {} /\ ~ran /\ os # {Info} /\ ~env.lost /\ \E k \in DOMAIN x.t : x.t[k][1] \notin {"ADD"}, "chk-transcript")
     \cup (IF Verified \in hit /\ x.single
           THEN UNION {IF x.lt[k].on THEN lrat(x.lt[k].by, x.lt[k].bin) ELSE {} : k \in DOMAIN x.lt}
           ELSE {})

Judge(x) == CASE x.y = "solve" -> Solve(x) [] x.y = "check" -> Check2(x)
Next == /\ i = 0 /\ i' = 1 /\ h' = h
        /\ LET v == Judge(H[h]) IN IF v # {} THEN PrintT(<<"VIOL", h, 1, v>>) ELSE TRUE
View == <<h, i>>
Spec == Init /\ [][Next]_<<h, i>>
=============================================================================

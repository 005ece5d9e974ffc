------------------------------ MODULE RawTrace ------------------------------
(* Validates checker runs: one JSON line per run with                        *)
(*   f0   the formula        by   the bytes of the proof                     *)
(*   rf   1 if the reader fails after these bytes, 0 if they just end        *)
(*   vk, vs  the checker's verdict and the step it names                     *)
(*   chk, tr the steps reported to processors / transcript processors        *)
(*   plain  the verdict of a checker without processors                      *)
EXTENDS ProofRaw, Codec, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, p, s

vars == <<h, i, p, s>>
Upfront(x) ==
  If(x.vk = "panic", "checker-crash")
  \cup If(x.must = 1 /\ x.vk # "ok", "refused-honest")
  \cup If(x.vk \in {"proc", "load", "other"}, "verdict-other")
  \cup If(x.plain # x.vk, "verdict-depends-on-processors")

Init == h \in 1..Len(H) /\ i = 0 /\ p = 1 /\ s = Init0(<<>>)
Stop(labs) == PrintT(<<"VIOL", h, i + 1, labs>>) /\ i' = 1000000 /\ p' = 0 /\ s' = Init0(<<>>)
Done == i' = 1000000 /\ p' = 0 /\ s' = Init0(<<>>)
Judge(labs) == IF labs # {} THEN Stop(labs) ELSE Done

Next ==
  /\ i < 1000000
  /\ h' = h
  /\ LET x == H[h]
         nf == Len(x.f0)
         n == i - nf + 1       \* number of the proof step
     IN IF i = 0 /\ Upfront(x) # {} THEN Stop(Upfront(x))
        ELSE IF i < nf
        THEN LET r == LoadClause(s, x.f0[i + 1], x.chk, x.tr, TRUE)
             IN IF r.v # {} THEN Stop(r.v) ELSE i' = i + 1 /\ p' = p /\ s' = r.s
        ELSE
        LET d == ReadStep(x.by, p)
        IN IF d.st = "eof"
           THEN Judge(IF x.rf = 1 THEN If(x.vk # "io", "verdict-io")
                      ELSE If(x.vk # "incomplete", IF x.vk = "ok" THEN "verdict-incomplete-accepted" ELSE "verdict-eof")
                           \cup If(x.vk = "incomplete" /\ x.vs # n, "verdict-number"))
           ELSE IF d.st = "bad"
           THEN Judge(If(x.vk = "ok", "verdict-bad-accepted") \cup If(x.vk = "io", "verdict-io")
                      \cup If(x.vk \in {"fail", "parse"} /\ x.vs # n, "verdict-number"))
           ELSE IF x.vk # "ok" /\ x.vs = n
           THEN Judge(If(x.vk # "fail", "verdict-valid-bytes")
                      \cup (IF x.hk = 1 THEN If(Legal(s, d.x, x.hh), "refused-legal-" \o d.x.k) ELSE {}))
           ELSE IF d.x.k = "end"
           THEN Judge(IF x.vk # "ok" THEN {"verdict-complete-refused"} ELSE EndStep(s, x.chk, x.tr))
           ELSE LET r == RawStep(s, d.x, x.chk, x.tr)
                IN IF r.v # {} THEN Stop(r.v) ELSE i' = i + 1 /\ p' = d.p /\ s' = r.s

View == <<h, i>>
Spec == Init /\ [][Next]_vars
=============================================================================

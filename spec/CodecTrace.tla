------------------------------ MODULE CodecTrace ------------------------------
(* Validates the proof encoder and decoder.  One JSON line per case:          *)
(*   by   bytes          given  1 if they were written from the steps `wr`    *)
(*   wr   the steps given to the writer (if any)                              *)
(*   runs what the reader made of the bytes for several buffer sizes:         *)
(*        [st |-> "end" / "eof" / "bad", steps |-> ...]                       *)
(* Every reading must yield exactly the steps the specification reads.        *)
EXTENDS Codec, Json, IOUtils, TLC

H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, p
If(c, lab) == IF c THEN {lab} ELSE {}

Init == h \in 1..Len(H) /\ i = 0 /\ p = 1
Stop(labs) == PrintT(<<"VIOL", h, i + 1, labs>>) /\ i' = 1000000 /\ p' = 0
Same(a, b) == a.k = b.k /\ a.c = b.c /\ a.v = b.v /\ a.u = b.u /\ a.f = b.f /\ a.h = b.h
Next ==
  /\ i < 1000000
  /\ h' = h
  /\ LET x == H[h]
         d == ReadStep(x.by, p)
         n == i + 1
         over == d.st # "ok"
         rd(r) == IF over
                  THEN If(r.st # d.st, "codec-end") \cup If(Len(r.steps) # i, "codec-extra")
                  ELSE IF Len(r.steps) < n THEN {"codec-lost"}
                  ELSE If(~Same(r.steps[n], d.x), "codec-read")
         runs == UNION {rd(x.runs[k]) : k \in DOMAIN x.runs}
         wr == IF x.given = 0 THEN {}
               ELSE IF over THEN If(n # Len(x.wr) + 1, "codec-write")
               ELSE If(n > Len(x.wr), "codec-write")
                    \cup (IF n > Len(x.wr) THEN {}
                          ELSE If(~Same(x.wr[n], d.x), "codec-write")
                               \cup If(SubSeq(x.by, p, d.p - 1) # WriteStep(x.wr[n]), "codec-format"))
     IN IF runs \cup wr # {} THEN Stop(runs \cup wr)
        ELSE IF over \/ d.x.k = "end" THEN
             LET fin == UNION {IF over THEN {} ELSE If(x.runs[k].st # "end" \/ Len(x.runs[k].steps) # n, "codec-end") : k \in DOMAIN x.runs}
             IN IF fin # {} THEN Stop(fin) ELSE i' = 1000000 /\ p' = 0
        ELSE i' = n /\ p' = d.p

View == <<h, i>>
Spec == Init /\ [][Next]_<<h, i, p>>
=============================================================================

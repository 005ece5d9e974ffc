------------------------------ MODULE ApiTrace ------------------------------
(* Validates recorded histories of the real solver against VarisatApi.     *)
(* Every history is one behaviour; the rules broken by the first event     *)
(* that is not a legal step are printed and that history stops there.      *)
EXTENDS VarisatApi, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, s

Init == h \in 1..Len(H) /\ i = 0 /\ s = ApiInit

Next ==
  /\ i < Len(H[h].ev)
  /\ h' = h
  /\ LET r == Step(s, H[h].ev[i + 1])
     IN IF r.v = {} THEN i' = (IF r.s.res = "END" THEN 1000000 ELSE i + 1) /\ s' = r.s
        ELSE /\ PrintT(<<"VIOL", h, i + 1, r.v>>)
             /\ i' = 1000000 /\ s' = ApiInit

View == <<h, i>>
Spec == Init /\ [][Next]_<<h, i, s>>
=============================================================================

----------------------------- MODULE IpoptTrace -----------------------------
(* The calls the real code made to the Ipopt library (RECORDS: one solve per  *)
(* line: calls, the configured options, and how the solve ended) against the  *)
(* protocol.                                                                  *)
EXTENDS IpoptProto, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLES r, k, h
R == Recs[r]
Init == r \in DOMAIN Recs /\ k = 0 /\ h = Blank
Next == /\ k < Len(R.ev) /\ Legal(h, R.ev[k + 1], R)
        /\ h' = After(h, R.ev[k + 1]) /\ k' = k + 1 /\ r' = r
Spec == Init /\ [][Next]_<<r, k, h>>
LegalCalls == k < Len(R.ev) => Legal(h, R.ev[k + 1], R)
ReleasedAtReturn == k = Len(R.ev) => Released(h)
(* a solve that returned a result ran Ipopt; one that failed did not *)
RanIffResult == k = Len(R.ev) => (h.stage = "done" <=> R.r # "fail")
=============================================================================

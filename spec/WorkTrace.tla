-------------------------------- MODULE WorkTrace -------------------------------
(***************************************************************************)
(* Judges measured costs: one record per implementation, with calibration u  *)
(* and points [xl, cl, ta, tr, t2].                                              *)
(***************************************************************************)
EXTENDS WorkDefs, TLC, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Rec(g) == TLCGet(1)[g]
VARIABLES g, q, ok
Broken(r, e) == (IF KeyAfterVerify(Par(r.alg), e.xl, e.cl, e.ta, e.tr, r.u) THEN {} ELSE {"KeyAfterVerify"})
                \cup (IF MacOnly(Par(r.alg), e.xl, e.cl, e.tr, e.t2, r.u) THEN {} ELSE {"MacOnly"})
TInit == g \in 1..Len(TLCGet(1)) /\ q = 0 /\ ok = TRUE
TNext == /\ q < Len(Rec(g).ev) /\ q' = q + 1 /\ g' = g
         /\ LET f == Broken(Rec(g), Rec(g).ev[q']) IN ok' = (ok /\ f = {}) /\ (f = {} \/ PrintT(<< "BAD", g, q', f >>))
Finished == ok /\ q = Len(Rec(g).ev) => PrintT(<< "OK", g >>)
================================================================================

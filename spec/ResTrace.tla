-------------------------------- MODULE ResTrace --------------------------------
(***************************************************************************)
(* Judges recorded calls: one record per implementation, its calls in order. *)
(***************************************************************************)
EXTENDS ResDefs, TLC, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Rec(g) == TLCGet(1)[g]
VARIABLES g, q, top, ok
TInit == g \in 1..Len(TLCGet(1)) /\ q = 0 /\ top = 0 /\ ok = TRUE
TNext == /\ q < Len(Rec(g).ev) /\ q' = q + 1 /\ g' = g
         /\ LET e == Rec(g).ev[q'] IN
              /\ top' = Deeper(top, e)
              /\ LET f == Broken(top, e) IN ok' = (ok /\ f = {}) /\ (f = {} \/ PrintT(<< "BAD", g, q', f >>))
Finished == ok /\ q = Len(Rec(g).ev) => PrintT(<< "OK", g >>)
================================================================================

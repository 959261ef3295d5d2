------------------------------- MODULE HashTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded hash calls (fields x, rret, rout) with AsconHash.*)
(***************************************************************************)
EXTENDS AsconHash, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
TraceHJob(j) == TLCGet(1)[j]

HVerdict == /\ hpc = "done"
            /\ hpc' = "judged"
            /\ IF HJob(hjob).rret = 0 /\ HJob(hjob).rout = hout
               THEN PrintT(<< "OK", hjob >>)
               ELSE PrintT(<< "BAD", hjob, 0, hout >>)
            /\ UNCHANGED << hjob, hst, hi, hout >>
HTraceInit == hjob \in 1..Len(TLCGet(1)) /\ HStart
HTraceNext == HNext \/ HVerdict
\* the verdict step leaves the machine finished
HTraceSafety == hpc = "judged" \/ HSafety
===============================================================================

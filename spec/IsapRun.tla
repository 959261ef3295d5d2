-------------------------------- MODULE IsapRun --------------------------------
(***************************************************************************)
(* Runs the specification: prints the result of every job, to be used as    *)
(* input for the implementations (ciphertexts "issued by the specification")*)
(***************************************************************************)
EXTENDS Isap, IsapInst, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
TraceJob(j) == TLCGet(1)[j]

RPrint == /\ pc = "done"
          /\ pc' = "printed"
          /\ PrintT("RES " \o ToJson(<< job, ret, Result.out >>))
          /\ UNCHANGED << job, st, i, y, inner, out, tag, ret >>
RInit == job \in 1..Len(TLCGet(1)) /\ Start
RNext == Next \/ RPrint
================================================================================

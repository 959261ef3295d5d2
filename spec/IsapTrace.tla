------------------------------- MODULE IsapTrace -------------------------------
(***************************************************************************)
(* Conformance: every job of the trace is a call recorded from a real      *)
(* implementation through its public interface, with what it returned and  *)
(* wrote (fields rret, rout).  Each job is executed by the Isap state      *)
(* machine with the real permutation; the recorded call is accepted iff    *)
(* the machine's result is the recorded one.                               *)
(*   rret: 0 success, 1 any other return value                             *)
(*   rout: bytes written to the output (ciphertext||tag, or plaintext)     *)
(***************************************************************************)
EXTENDS Isap, IsapInst, Json, IOUtils

\* read once and kept in a TLC register: TLC would re-read the file otherwise
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
TraceJob(j) == TLCGet(1)[j]


R == Job(job)
\* a released plaintext is compared in full; a rejected call must release nothing
Conforms == /\ R.rret = ret
            /\ R.rout = Result.out

Verdict == /\ pc = "done"
           /\ pc' = "judged"
           /\ IF Conforms THEN PrintT(<< "OK", job >>)
                          ELSE PrintT(<< "BAD", job, ret, Result.out >>)
           /\ UNCHANGED << job, st, i, y, inner, out, tag, ret >>

TraceInit == job \in 1..Len(TLCGet(1)) /\ Start
TraceNext == Next \/ Verdict
===============================================================================

-------------------------------- MODULE ApiTrace --------------------------------
(***************************************************************************)
(* Judges recorded histories of the real code.  Every line of the trace     *)
(* file is one history (a sequence ev of calls with their outcomes, in the  *)
(* order in which they returned); every history is one behaviour, every     *)
(* call one step.  A call is accepted iff no clause fails.                  *)
(***************************************************************************)
EXTENDS AeadApi, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Hist(g) == TLCGet(1)[g].ev

VARIABLES g, l, failed
tvars == << issued, opened, hashed, rejected, g, l, failed >>

TInit == ApiInit /\ g \in 1..Len(TLCGet(1)) /\ l = 1 /\ failed = {}

Step ==
  /\ l <= Len(Hist(g))
  /\ LET e == Hist(g)[l]
         f == Failing(e, e)
     IN /\ IF f \subseteq failed THEN TRUE ELSE PrintT(<< "BAD", g, l, f \ failed >>)
        /\ failed' = failed \cup f
        /\ Record(e, e)
  /\ l' = l + 1 /\ UNCHANGED g
Done ==
  /\ l = Len(Hist(g)) + 1
  /\ PrintT(<< IF failed = {} THEN "OK" ELSE "BADEND", g >>)
  /\ l' = l + 1 /\ UNCHANGED << issued, opened, hashed, rejected, g, failed >>
TNext == Step \/ Done
TOk == failed # {} \/ (OpenedMatches /\ NeverBoth)
================================================================================

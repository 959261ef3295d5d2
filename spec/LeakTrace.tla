-------------------------------- MODULE LeakTrace --------------------------------
(***************************************************************************)
(* Judges recorded observations of the real code: every line of the trace   *)
(* file is one history of one build.                                        *)
(***************************************************************************)
EXTENDS Leak, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Hist(g) == TLCGet(1)[g].ev
VARIABLES g, l, failed
TInit == LeakInit /\ g \in 1..Len(TLCGet(1)) /\ l = 1 /\ failed = {}
Step ==
  /\ l <= Len(Hist(g))
  /\ LET e == Hist(g)[l]
         f == LeakFailing(e)
     IN /\ IF f \subseteq failed THEN TRUE ELSE PrintT(<< "BAD", g, l, f \ failed >>)
        /\ failed' = failed \cup f
        /\ LeakRecord(e)
  /\ l' = l + 1 /\ UNCHANGED g
Done ==
  /\ l = Len(Hist(g)) + 1
  /\ PrintT(<< IF failed = {} THEN "OK" ELSE "BADEND", g >>)
  /\ l' = l + 1 /\ UNCHANGED << seen, g, failed >>
TNext == Step \/ Done
================================================================================

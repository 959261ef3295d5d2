------------------------------- MODULE FrameTrace -------------------------------
(***************************************************************************)
(* Judges recorded calls of one implementation (and, for comparison, of     *)
(* other instances) under shared keys.  A history is a sequence of          *)
(*   E: (alg, k, n, a, c) was authenticated with tag t                      *)
(*   D: (alg, k, n, a, c) was presented with tag t; ret = 0: accepted       *)
(* TagInjective: no two different inputs share a tag.                       *)
(* NoCross: only an input that was authenticated with t is accepted with t. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Hist(g) == TLCGet(1)[g].ev
VARIABLES g, l, tagOf, failed
In(e) == << e.alg, e.n, e.a, e.c >>
Key(e) == << e.k, e.t >>
Clash(e) == Key(e) \in DOMAIN tagOf /\ tagOf[Key(e)] # In(e)
Failing(e) ==
  {cl \in {"TagInjective", "NoCross"} :
     \/ cl = "TagInjective" /\ e.op = "E" /\ e.ret = 0 /\ Clash(e)
     \/ cl = "NoCross" /\ e.op = "D" /\ e.ret = 0 /\ (Key(e) \notin DOMAIN tagOf \/ Clash(e))}
TInit == g \in 1..Len(TLCGet(1)) /\ l = 1 /\ failed = {} /\ tagOf = << >>
Step ==
  /\ l <= Len(Hist(g))
  /\ LET e == Hist(g)[l]  f == Failing(e) IN
       /\ IF f \subseteq failed THEN TRUE ELSE PrintT(<< "BAD", g, l, f \ failed >>)
       /\ failed' = failed \cup f
       /\ tagOf' = IF e.op = "E" /\ e.ret = 0 /\ Key(e) \notin DOMAIN tagOf THEN tagOf @@ (Key(e) :> In(e)) ELSE tagOf
  /\ l' = l + 1 /\ UNCHANGED g
Done ==
  /\ l = Len(Hist(g)) + 1
  /\ PrintT(<< IF failed = {} THEN "OK" ELSE "BADEND", g >>)
  /\ l' = l + 1 /\ UNCHANGED << tagOf, g, failed >>
TNext == Step \/ Done
================================================================================

---------------------------------- MODULE Work ----------------------------------
(***************************************************************************)
(* Decryption as a sequence of phases with costs: absorbing, re-keying for   *)
(* the tag, comparing, and - after acceptance - re-keying for the key stream *)
(* and the key stream itself.  Broken machines derive the encryption key or  *)
(* decrypt before they know the verdict, always or for some inputs.  A probe *)
(* is a history of five calls (accepted, rejected, rejected without message, *)
(* and two calibrations); the conditions of WorkDefs are evaluated on their  *)
(* costs.  The cost of a round while re-keying, and the overhead of blocks,  *)
(* of clearing the output and of comparing tags, vary: the ideal machine is  *)
(* never accused, every broken machine is by some probe.                     *)
(***************************************************************************)
EXTENDS WorkDefs, FiniteSets, TLC
Algs == {"isapa128av20", "isapa128v20", "isapk128av20", "isapk128v20"}
Harmless == {"ideal", "clears", "clearsbytes", "stpcompare"}
Broken == {"decryptfirst", "keyfirst", "firstblock", "shortfirst", "longfirst", "noadfirst", "tagprefix", "tagsuffix",
           "decryptclear", "longclear"}
\* costs in tenths of a round: a round of re-keying, overhead per absorbed block
Costs == [rk : {7, 10, 20}, ov : {0, 20}]
Masks == {"first", "last"}                       \* which byte of the tag is wrong
VARIABLES alg, v, cost, pr, n, pc, t, done
vars == << alg, v, cost, pr, n, pc, t, done >>
P == Par(alg)
Lens == {0, 1, 5, 8, 9, 18, 37, 64, 200, 201, 520, 1000, 4096}
Init == /\ alg \in Algs /\ v \in Harmless \cup Broken /\ cost \in Costs
        /\ pr \in [al : {0, 3, 40}, xl : Lens, mask : Masks]
        /\ n = 1 /\ pc = "pre" /\ t = 0 /\ done = << >>
\* the call that runs now
Xl == IF n \in {1, 2} THEN pr.xl ELSE 0
Al == CASE n \in {1, 2} -> pr.al [] n = 3 -> SameBlocks(P, pr.al, pr.xl) [] n = 4 -> 0 [] OTHER -> P.r * CalBlocks
Accepted == n = 1
FirstTagByteRight == Accepted \/ (n = 2 /\ pr.mask = "last")
LastTagByteRight == Accepted \/ (n = 2 /\ pr.mask = "first")
RkCost == Rekey(P) * cost.rk
StreamCost(l) == Stream(P, l) * 10
\* rounds before the verdict, beyond authentication
Early == CASE v \in {"decryptfirst", "decryptclear"} -> RkCost + StreamCost(Xl)
           [] v = "keyfirst" -> RkCost
           [] v = "firstblock" /\ Xl > 0 -> RkCost + StreamCost(1)
           [] v = "shortfirst" /\ Xl > 0 /\ Xl <= P.r -> RkCost + StreamCost(Xl)
           [] v = "longfirst" /\ Xl > 200 -> RkCost + StreamCost(1)
           [] v = "longclear" /\ Xl > 200 -> RkCost + StreamCost(Xl)
           [] v = "noadfirst" /\ Al = 0 -> RkCost + StreamCost(Xl)
           [] v = "tagprefix" /\ FirstTagByteRight -> RkCost
           [] v = "tagsuffix" /\ LastTagByteRight -> RkCost
           [] OTHER -> 0
Step(from, to, c) == pc = from /\ pc' = to /\ t' = t + c /\ UNCHANGED << alg, v, cost, pr, n, done >>
Pre == Step("pre", "absorb", Early)
Absorb == Step("absorb", "rekey", 10 * P.sH + (Absorbed(P, Al) + Absorbed(P, Xl)) * (10 * P.sH + cost.ov))
RekeyTag == Step("rekey", "compare", RkCost + 10 * P.sH)
Compare == Step("compare", IF Accepted THEN "decrypt" ELSE "reject", IF v = "stpcompare" THEN 20 * P.sK + 100 ELSE 10)
Decrypt == Step("decrypt", "return", IF Xl = 0 THEN 0 ELSE IF Early > 0 THEN (RkCost + StreamCost(Xl)) - Early ELSE RkCost + StreamCost(Xl))
Reject == Step("reject", "return", CASE v = "clears" -> Xl [] v = "clearsbytes" -> 7 * Xl [] OTHER -> 0)
Return == /\ pc = "return" /\ done' = Append(done, t) /\ t' = 0 /\ n' = n + 1
          /\ pc' = (IF n = 5 THEN "end" ELSE "pre") /\ UNCHANGED << alg, v, cost, pr >>
Next == Pre \/ Absorb \/ RekeyTag \/ Compare \/ Decrypt \/ Reject \/ Return

U == done[5] - done[4]
\* output bytes that the rejected call has overwritten
Cl == IF v \in {"clears", "clearsbytes", "decryptclear"} \/ (v = "longclear" /\ pr.xl > 200) THEN pr.xl ELSE 0
Accused == pc = "end" /\ ~(KeyAfterVerify(P, pr.xl, Cl, done[1] \div 10, done[2] \div 10, U \div 10) /\ MacOnly(P, pr.xl, Cl, done[2] \div 10, done[3] \div 10, U \div 10))
Quiet == v \in Harmless => ~Accused
\* for every instance and all costs, each broken machine is accused by some probe: the set of those found is printed
Tag == << alg, v, cost.rk, cost.ov >>
ASSUME TLCSet(11, {})
Report == Accused => IF Tag \in TLCGet(11) THEN TRUE ELSE TLCSet(11, TLCGet(11) \cup {Tag}) /\ PrintT(<< "CAUGHT", v >>) /\ PrintT(<< "ACCUSED", Tag >>)
================================================================================

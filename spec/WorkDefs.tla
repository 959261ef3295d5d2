-------------------------------- MODULE WorkDefs --------------------------------
(***************************************************************************)
(* How much permutation work the phases of a call contain (rounds), and when *)
(* measured costs show that a rejected call has done work that belongs to    *)
(* accepted calls only.  Costs are in any unit; it is calibrated by two      *)
(* rejected calls without message whose associated data differ by CalBlocks  *)
(* blocks.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Par(alg) == CASE alg = "isapa128av20" -> [r |-> 8,  sH |-> 12, sB |-> 1,  sE |-> 6,  sK |-> 12]
              [] alg = "isapa128v20"  -> [r |-> 8,  sH |-> 12, sB |-> 12, sE |-> 12, sK |-> 12]
              [] alg = "isapk128av20" -> [r |-> 18, sH |-> 16, sB |-> 1,  sE |-> 8,  sK |-> 8]
              [] alg = "isapk128v20"  -> [r |-> 18, sH |-> 20, sB |-> 12, sE |-> 12, sK |-> 12]
CalBlocks == 32
\* re-keying: load, 127 single bits, the last bit
Rekey(p) == p.sK + 127 * p.sB + p.sK
Absorbed(p, l) == (l \div p.r) + 1
Stream(p, l) == ((l + p.r - 1) \div p.r) * p.sE
EncRounds(p, l) == IF l = 0 THEN 0 ELSE Rekey(p) + Stream(p, l)
\* associated data of a call without message that absorbs as many blocks
SameBlocks(p, al, xl) == p.r * ((al \div p.r) + (xl \div p.r)) + (al % p.r)

\* ta: accepted, tr: rejected, t2: rejected, no message, equally many absorbed blocks; u: cost of CalBlocks absorbed blocks
\* an accepted call decrypts after it has verified: it costs more than a rejected one
\* cl: output bytes the rejected call has overwritten (clearing them may cost up to six eighths of a round each)
KeyAfterVerify(p, xl, cl, ta, tr, u) == xl > 0 => (ta - tr) * 10 * CalBlocks * p.sH >= (4 * EncRounds(p, xl) - (15 * cl) \div 2) * u
\* a rejected call costs what the authentication of as many blocks costs, and what it clears
MacOnly(p, xl, cl, tr, t2, u) == (tr - t2) * 8 * CalBlocks * p.sH <= (4 * Rekey(p) + xl + 6 * cl) * u
================================================================================

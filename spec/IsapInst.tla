------------------------------- MODULE IsapInst -------------------------------
(***************************************************************************)
(* The four ISAP v2.0 instances of this repository and their permutations.  *)
(***************************************************************************)
EXTENDS Ascon, Keccak400

\* IV = id || k || rH || rB || sH || sB || sE || sK  (rH in bits, one byte)
MkInst(big, cells, rate, sH, sB, sE, sK) ==
  LET iv(d) == << d, 128, 8 * rate, 1, sH, sB, sE, sK >> IN
  [ big |-> big, cells |-> cells, kb |-> 16, rate |-> rate,
    sH |-> sH, sB |-> sB, sE |-> sE, sK |-> sK,
    ivA |-> iv(1), ivKA |-> iv(2), ivKE |-> iv(3) ]

A128a == MkInst(TRUE,  20,  8, 12,  1,  6, 12)
A128  == MkInst(TRUE,  20,  8, 12, 12, 12, 12)
K128a == MkInst(FALSE, 25, 18, 16,  1,  8,  8)
K128  == MkInst(FALSE, 25, 18, 20, 12, 12, 12)

RealInst(alg) == CASE alg = "isapa128av20" -> A128a
                   [] alg = "isapa128v20"  -> A128
                   [] alg = "isapk128av20" -> K128a
                   [] alg = "isapk128v20"  -> K128

RealPerm(inst, s, n) == IF inst.big THEN AsconP(s, n) ELSE KeccakP(s, n)
===============================================================================

------------------------------ MODULE AsconHash ------------------------------
(***************************************************************************)
(* Ascon-Hash as a state machine: one action per permutation call.         *)
(*                                                                         *)
(* A behaviour hashes the input of one job.  The input is cut into 8-byte   *)
(* blocks with 10* padding (always at least one padding byte), every block  *)
(* is absorbed with the 12-round permutation, and four lanes are squeezed   *)
(* with one permutation call between consecutive lanes.                    *)
(***************************************************************************)
EXTENDS Ascon

CONSTANTS HNJobs, HJob(_)      \* HJob(j): record with field x, the input bytes

VARIABLES hjob, hpc, hst, hi, hout
hvars == << hjob, hpc, hst, hi, hout >>

HX == HJob(hjob).x
\* IV of Ascon-Hash: 0 rate rounds 0 256 (bits), zero-extended to 320 bits
HashIV == << 0, 64, 12, 0, 0, 0, 1, 0 >>
HRate == 8
HBlocks == Len(HX) \div HRate + 1
HBlock(b) == TLCEval([j \in 1..HRate |->
               LET p == (b - 1) * HRate + j IN
               IF p <= Len(HX) THEN HX[p] ELSE IF p = Len(HX) + 1 THEN 128 ELSE 0])

HStart == hpc = "init" /\ hst = <<>> /\ hi = 0 /\ hout = <<>>
HInit == hjob \in 1..HNJobs /\ HStart

HSetup ==
  /\ hpc = "init"
  /\ hst' = AsconP(CellsOf(TRUE, HashIV \o Zeros(32)), 12)
  /\ hi' = 1 /\ hpc' = "absorb"
  /\ UNCHANGED << hjob, hout >>
HAbsorb ==
  /\ hpc = "absorb"
  /\ hst' = AsconP(XorFront(hst, CellsOf(TRUE, HBlock(hi))), 12)
  /\ IF hi = HBlocks THEN hi' = 1 /\ hpc' = "squeeze"
                     ELSE hi' = hi + 1 /\ hpc' = "absorb"
  /\ UNCHANGED << hjob, hout >>
HSqueeze ==
  /\ hpc = "squeeze"
  /\ hout' = hout \o BytesOf(TRUE, hst, 8)
  /\ IF hi = 4 THEN hpc' = "done" /\ hst' = hst
               ELSE hpc' = "squeeze" /\ hst' = AsconP(hst, 12)
  /\ hi' = hi + 1
  /\ UNCHANGED hjob
HNext == HSetup \/ HAbsorb \/ HSqueeze

\* the digest is complete exactly at the end, and never more than 32 bytes
HSafety == /\ Len(hout) <= 32
           /\ (hpc = "done") <=> (Len(hout) = 32)
           /\ hpc = "absorb" => hi \in 1..HBlocks
==============================================================================

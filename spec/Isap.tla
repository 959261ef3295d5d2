--------------------------------- MODULE Isap ---------------------------------
(***************************************************************************)
(* ISAP v2.0 authenticated encryption as a state machine.                  *)
(*                                                                         *)
(* One behaviour is one call of the AEAD interface (a JOB); one action is  *)
(* one call of the underlying permutation together with what is absorbed   *)
(* before it or squeezed after it.  The phases follow the structure of the *)
(* implementations (isap_rk / isap_mac / isap_enc, encrypt / decrypt):        *)
(*                                                                         *)
(*   encrypt:  RK(enc key, N)  KEYSTREAM over M   MAC over N,A,C -> C||T   *)
(*   decrypt:  [len < 16 -> reject]  MAC over N,A,C  compare                *)
(*             equal: RK(enc key, N)  KEYSTREAM over C -> M                *)
(*             different: reject, nothing released                         *)
(*                                                                         *)
(* The permutation and the parameter record are operators so that the      *)
(* same machine is used (a) with the real permutations to decide recorded  *)
(* calls of the implementations (IsapTrace), and (b) with small instances  *)
(* for exhaustive exploration of the mode (IsapDesign).                    *)
(***************************************************************************)
EXTENDS Words

CONSTANTS
  NJobs, Job(_),    \* the jobs 1..NJobs, see below
  Perm(_, _, _),    \* Perm(inst, state, rounds)
  Inst(_)           \* Inst(alg): the parameter record, see InstOK

(* A job: alg, op in {"enc","dec"}, k, n, a (bytes), x (plaintext, or       *)
(* ciphertext WITHOUT tag), t (tag presented, dec only), short (dec only:   *)
(* the presented ciphertext is shorter than a tag).                         *)

(* Inst: big   byte order of the cells          cells  state size in cells
         kb    key/nonce/tag/iv-y length in bytes
         rate  rH in bytes (absorption/squeezing rate of MAC and ENC)
         sH sB sE sK  round numbers
         ivA ivKA ivKE  the three 8-byte initial values                    *)

VARIABLES
  job,    \* index of the job
  pc,     \* control point
  st,     \* permutation state (cells)
  i,      \* position: next block / next bit
  y,      \* the string being absorbed by the re-keying function
  inner,  \* MAC: state saved while the re-keying function runs
  out,    \* bytes produced so far (keystream XOR input)
  tag,    \* tag computed
  ret     \* 99 running, 0 success, 1 reject

vars == << job, pc, st, i, y, inner, out, tag, ret >>

J  == Job(job)
I  == Inst(J.alg)

\* ---- helpers ---------------------------------------------------------------
\* 10*-padding to a multiple of r bytes; always adds at least one byte
Pad(s, r) == s \o << 128 >> \o Zeros((r - ((Len(s) + 1) % r)) % r)
NBlocks(len, r) == len \div r + 1                    \* blocks of Pad(s, r)
\* block b (1-based) of Pad(s, r), without building the padded string
PadBlock(s, r, b) == TLCEval([j \in 1..r |->
                       LET p == (b - 1) * r + j IN
                       IF p <= Len(s) THEN s[p] ELSE IF p = Len(s) + 1 THEN 128 ELSE 0])
MinI(a, b) == IF a < b THEN a ELSE b

\* bit p (1-based, most significant first) of a byte string
BitOf(s, p) == (s[((p - 1) \div 8) + 1] \div (2 ^ (7 - ((p - 1) % 8)))) % 2

\* a full state from a byte string, zero extended
Load(inst, s) == CellsOf(inst.big, s \o Zeros(2 * inst.cells - Len(s)))

\* absorb one bit at the most significant bit of the first byte
XorBit(inst, s, b) == IF b = 0 THEN s
                      ELSE XorFront(s, << MkCell(inst.big, 128, 0) >>)
\* domain separation between associated data and ciphertext: last state byte ^= 1
DomSep(inst, s) == [s EXCEPT ![inst.cells] = @ ^^ MkCell(inst.big, 0, 1)]

\* the ciphertext this job authenticates
CText == IF J.op = "enc" THEN out ELSE J.x

\* ---- starting points ------------------------------------------------------
Clear == /\ st = <<>> /\ i = 0 /\ y = <<>> /\ inner = <<>> /\ out = <<>>
         /\ tag = <<>> /\ ret = 99

Start == /\ Clear
         /\ pc = IF J.op = "enc" THEN "rk_enc" ELSE "dec_start"
Init == job \in 1..NJobs /\ Start

\* ---- re-keying function ----------------------------------------------------
RkStart(from, iv, ys, to) ==
  /\ pc = from
  /\ st' = Perm(I, Load(I, J.k \o iv), I.sK)
  /\ y' = ys
  /\ i' = 1
  /\ pc' = to
  /\ UNCHANGED << job, out, tag, ret >>

\* absorb bit i of y and permute with sB rounds
RkBit(at) ==
  /\ pc = at
  /\ i < 8 * I.kb
  /\ st' = Perm(I, XorBit(I, st, BitOf(y, i)), I.sB)
  /\ i' = i + 1
  /\ UNCHANGED << job, pc, y, inner, out, tag, ret >>

\* state after the last bit and the final sK rounds: the session key
RkOut == Perm(I, XorBit(I, st, BitOf(y, 8 * I.kb)), I.sK)
RkAtEnd(at) == pc = at /\ i = 8 * I.kb

\* ---- encryption -------------------------------------------------------------
EncRkStart == RkStart("rk_enc", I.ivKE, J.n, "rk_enc_bits") /\ UNCHANGED inner
EncRkBit   == RkBit("rk_enc_bits")
\* session key || nonce is the start state of the key stream generator
AfterEnc == IF J.op = "enc" THEN "mac_init" ELSE "done_dec"
EncRkEnd ==
  /\ RkAtEnd("rk_enc_bits")
  /\ st' = Load(I, BytesOf(I.big, RkOut, 2 * I.cells - I.kb) \o J.n)
  /\ i' = 1
  /\ pc' = IF Len(J.x) = 0 THEN AfterEnc ELSE "stream"
  /\ UNCHANGED << job, y, inner, out, tag, ret >>
\* one key stream block
EncBlock ==
  /\ pc = "stream"
  /\ LET s2  == Perm(I, st, I.sE)
         lo  == (i - 1) * I.rate
         n   == MinI(I.rate, Len(J.x) - lo)
         ks  == BytesOf(I.big, s2, n)
     IN /\ st' = s2
        /\ out' = out \o XorSeq(SubSeq(J.x, lo + 1, lo + n), ks)
        /\ pc' = IF lo + n = Len(J.x) THEN AfterEnc ELSE "stream"
        /\ i' = i + 1
  /\ UNCHANGED << job, y, inner, tag, ret >>

\* ---- authentication -------------------------------------------------------
MacInit ==
  /\ pc = "mac_init"
  /\ st' = Perm(I, Load(I, J.n \o I.ivA), I.sH)
  /\ i' = 1
  /\ pc' = "mac_ad"
  /\ UNCHANGED << job, y, inner, out, tag, ret >>
\* one block of the padded associated data; the last one is followed by the
\* domain separation
MacAd ==
  /\ pc = "mac_ad"
  /\ LET last == i = NBlocks(Len(J.a), I.rate)
         s2 == Perm(I, XorFront(st, CellsOf(I.big, PadBlock(J.a, I.rate, i))), I.sH)
     IN /\ st' = IF last THEN DomSep(I, s2) ELSE s2
        /\ i'  = IF last THEN 1 ELSE i + 1
        /\ pc' = IF last THEN "mac_c" ELSE "mac_ad"
  /\ UNCHANGED << job, y, inner, out, tag, ret >>
MacC ==
  /\ pc = "mac_c"
  /\ LET last == i = NBlocks(Len(CText), I.rate)
     IN /\ st' = Perm(I, XorFront(st, CellsOf(I.big, PadBlock(CText, I.rate, i))), I.sH)
        /\ i'  = i + 1
        /\ pc' = IF last THEN "rk_mac" ELSE "mac_c"
  /\ UNCHANGED << job, y, inner, out, tag, ret >>
\* the hash value selects the MAC session key
MacRkStart == RkStart("rk_mac", I.ivKA, BytesOf(I.big, st, I.kb), "rk_mac_bits") /\ inner' = st
MacRkBit   == RkBit("rk_mac_bits")
MacEnd ==
  /\ RkAtEnd("rk_mac_bits")
  /\ LET ka == CellsOf(I.big, BytesOf(I.big, RkOut, I.kb))
         s2 == Perm(I, SetFront(inner, ka), I.sH)
     IN /\ st' = s2
        /\ tag' = BytesOf(I.big, s2, I.kb)
        /\ pc' = IF J.op = "enc" THEN "done_enc" ELSE "verify"
  /\ UNCHANGED << job, i, y, inner, out, ret >>

\* ---- decryption -------------------------------------------------------------
DecStart ==
  /\ pc = "dec_start"
  /\ IF J.short THEN ret' = 1 /\ pc' = "done" ELSE ret' = ret /\ pc' = "mac_init"
  /\ UNCHANGED << job, st, i, y, inner, out, tag >>
Accept ==
  /\ pc = "verify" /\ tag = J.t
  /\ pc' = "rk_enc"
  /\ UNCHANGED << job, st, i, y, inner, out, tag, ret >>
Reject ==
  /\ pc = "verify" /\ tag # J.t
  /\ ret' = 1 /\ pc' = "done"
  /\ UNCHANGED << job, st, i, y, inner, out, tag >>
FinishEnc ==
  /\ pc = "done_enc" /\ ret' = 0 /\ pc' = "done"
  /\ UNCHANGED << job, st, i, y, inner, out, tag >>
FinishDec ==
  /\ pc = "done_dec" /\ ret' = 0 /\ pc' = "done"
  /\ UNCHANGED << job, st, i, y, inner, out, tag >>

Next == \/ EncRkStart \/ EncRkBit \/ EncRkEnd \/ EncBlock
        \/ MacInit \/ MacAd \/ MacC \/ MacRkStart \/ MacRkBit \/ MacEnd
        \/ DecStart \/ Accept \/ Reject \/ FinishEnc \/ FinishDec

Spec == Init /\ [][Next]_vars

\* ---- what the mode guarantees, step by step ---------------------------------
\* nothing of the plaintext exists in the output before the tag was verified
NoEarlyRelease == (J.op = "dec" /\ out # <<>>) => (tag # <<>> /\ tag = J.t)
\* a rejecting call ends with an empty output
RejectIsEmpty == ret = 1 => out = <<>>
\* acceptance means equality of all tag bytes with the computed tag
AcceptIsTag == (J.op = "dec" /\ ret = 0) => (tag = J.t /\ Len(tag) = I.kb)
\* the output has exactly the length of the input (tag excluded)
LengthsOK == ret = 0 => /\ Len(out) = Len(J.x)
                        /\ Len(tag) = I.kb
\* the key enters the state only in RkStart, where the rest of the state is public:
\* leakage resilience of the mode rests on absorbing at most one bit between
\* permutation calls afterwards
RateOneBit == pc \in {"rk_enc_bits", "rk_mac_bits"} => i \in 1..(8 * I.kb)
Safety == NoEarlyRelease /\ RejectIsEmpty /\ AcceptIsTag /\ LengthsOK /\ RateOneBit

\* the result of a finished call
Result == [ret |-> ret, out |-> IF J.op = "enc" THEN out \o tag ELSE out]
===============================================================================

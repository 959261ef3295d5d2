---------------------------------- MODULE Port ----------------------------------
(***************************************************************************)
(* One C source on different processors.  A call is scaled down to what      *)
(* differs between processors: four input bytes (of two bits) are loaded     *)
(* into a lane, the lane is rotated by one bit (the permutation), and the    *)
(* lane is stored to four output bytes; a tag of one byte is compared.       *)
(* A program chooses how it loads, stores, compares and counts; a machine    *)
(* gives these operations their meaning: byte order, width of long and       *)
(* size_t, signedness of plain char.  The reference machine is the x86-64    *)
(* of the test suite.  A program is portable when its outcomes are the same  *)
(* on all machines of its class; the check runs the real programs on the     *)
(* machines of Plan, and this model shows that a program which is right on   *)
(* the reference machine and wrong on some machine of All is wrong on one of *)
(* Plan, for contents that the calls of the check contain.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
\* be: big endian; wl, ws: bytes of long and of size_t; sc: plain char is signed
M(be, wl, ws, sc) == [be |-> be, wl |-> wl, ws |-> ws, sc |-> sc]
Reference == M(FALSE, 4, 4, TRUE)                      \* x86-64
All == {M(be, wl, ws, sc) : be \in BOOLEAN, wl \in {2, 4}, ws \in {2, 4}, sc \in BOOLEAN}
\* what the emulated machines of the check report of themselves: i686; 32-bit ARM and RISC-V;
\* AArch64, 64-bit RISC-V and PowerPC; big endian: 32-bit PowerPC
PlanLE == {M(FALSE, 2, 2, TRUE), M(FALSE, 2, 2, FALSE), M(FALSE, 4, 4, FALSE)}
PlanBE == {M(TRUE, 2, 2, FALSE)}
Load == {"bytes", "adaptive", "native", "swap", "long", "size", "char", "halves"}
Store == {"bytes", "adaptive", "native", "swap", "long", "halves"}
Compare == {"unsigned", "signonly", "char"}
Count == {"size", "char"}
Programs == [ld : Load, st : Store, cm : Compare, ct : Count, ord : {"B", "L"}]

Byte == 0..3
W(b, o) == IF o = "L" THEN b[1] + 4 * b[2] + 16 * b[3] + 64 * b[4] ELSE b[4] + 4 * b[3] + 16 * b[2] + 64 * b[1]
Native(m) == IF m.be THEN "B" ELSE "L"
Other(o) == IF o = "L" THEN "B" ELSE "L"
Weight(o, i) == IF o = "L" THEN 4 ^ (i - 1) ELSE 4 ^ (4 - i)
\* plain char converted to the lane: sign extension
Ext(m, x) == IF m.sc /\ x >= 2 THEN 256 - 4 + x ELSE x
Take(m, s, o, b, i) ==
  CASE s = "bytes" -> b[i] * Weight(o, i)
    [] s = "long" -> (b[i] * Weight(o, i)) % (4 ^ m.wl)
    [] s = "size" -> (b[i] * Weight(o, i)) % (4 ^ m.ws)
    [] s = "char" -> (Ext(m, b[i]) * Weight(o, i)) % 256
Half(b, i, o) == IF o = "L" THEN b[i] + 4 * b[i + 1] ELSE b[i + 1] + 4 * b[i]
LoadOf(m, s, o, b) ==
  CASE s = "native" -> W(b, Native(m))
    [] s = "swap" -> W(b, Other(Native(m)))
    [] s = "adaptive" -> W(b, o)
    [] s = "halves" -> IF o = "L" THEN Half(b, 1, Native(m)) + 16 * Half(b, 3, Native(m))
                       ELSE Half(b, 3, Other(Native(m))) + 16 * Half(b, 1, Other(Native(m)))
    [] OTHER -> LET t == [i \in 1..4 |-> Take(m, s, o, b, i)] IN ((t[1] | t[2]) | t[3]) | t[4]
Bytes(w, o) == LET d == << w % 4, (w \div 4) % 4, (w \div 16) % 4, w \div 64 >> IN IF o = "L" THEN d ELSE << d[4], d[3], d[2], d[1] >>
StoreOf(m, s, o, w) ==
  CASE s \in {"bytes", "adaptive"} -> Bytes(w, o)
    [] s = "native" -> Bytes(w, Native(m))
    [] s = "swap" -> Bytes(w, Other(Native(m)))
    [] s = "long" -> Bytes(w % (4 ^ m.wl), o)
    [] s = "halves" -> LET f == IF o = "L" THEN Bytes(w % 16, Native(m)) ELSE Bytes(w % 16, Other(Native(m)))
                           g == IF o = "L" THEN Bytes(w \div 16, Native(m)) ELSE Bytes(w \div 16, Other(Native(m)))
                           lo(x) == IF o = "L" THEN (IF m.be THEN << x[3], x[4] >> ELSE << x[1], x[2] >>)
                                    ELSE (IF m.be THEN << x[1], x[2] >> ELSE << x[3], x[4] >>)
                       IN IF o = "L" THEN lo(f) \o lo(g) ELSE lo(g) \o lo(f)
Rot(w) == ((2 * w) % 256) + (w \div 128)
\* d is the xor of two tags: accepted?
Accepts(m, s, d) ==
  CASE s = "unsigned" -> d = 0
    [] s = "signonly" -> IF m.sc THEN d = 0 ELSE d < 2          \* for instance: char d, -d < 0 or d < 0
    [] s = "char" -> d = 0 \/ (m.sc /\ d >= 2)                   \* ((int)d - 1) >> 8 with a negative d
\* a loop over n blocks: how many are processed; 9 stands for a loop that does not end
Counted(m, s, n) == IF s = "char" /\ n >= (IF m.sc THEN 4 ELSE 8) THEN 9 ELSE n

VARIABLES p, m, b, d, n, pc, lane, out
vars == << p, m, b, d, n, pc, lane, out >>
Contents == {<< 1, 0, 0, 0 >>, << 0, 2, 0, 0 >>, << 0, 0, 3, 0 >>, << 0, 0, 0, 2 >>, << 1, 2, 3, 0 >>, << 3, 1, 0, 2 >>, << 3, 3, 3, 3 >>, << 2, 0, 1, 3 >>}
Init == /\ p \in Programs /\ m \in All /\ b \in Contents /\ d \in Byte /\ n \in {1, 5}
        /\ (b = << 1, 2, 3, 0 >> \/ (d = 1 /\ n = 1))      \* contents vary with one tag and length, the others with one content
        /\ pc = "load" /\ lane = << 0, 0 >> /\ out = << >>
\* both machines in step: lane[1], out[1] belong to the reference
DoLoad == pc = "load" /\ lane' = << LoadOf(Reference, p.ld, p.ord, b), LoadOf(m, p.ld, p.ord, b) >> /\ pc' = "permute" /\ UNCHANGED << p, m, b, d, n, out >>
DoPermute == pc = "permute" /\ lane' = << Rot(lane[1]), Rot(lane[2]) >> /\ pc' = "store" /\ UNCHANGED << p, m, b, d, n, out >>
DoStore == pc = "store" /\ out' = << StoreOf(Reference, p.st, p.ord, lane[1]), StoreOf(m, p.st, p.ord, lane[2]) >> /\ pc' = "done" /\ UNCHANGED << p, m, b, d, n, lane >>
Next == DoLoad \/ DoPermute \/ DoStore

Outcome(q) == << out[q], Accepts(IF q = 1 THEN Reference ELSE m, p.cm, d), Counted(IF q = 1 THEN Reference ELSE m, p.ct, n) >>
Differs == pc = "done" /\ Outcome(1) # Outcome(2)
Portable == p.ld \in {"bytes", "adaptive"} /\ p.st \in {"bytes", "adaptive"} /\ p.cm = "unsigned" /\ p.ct = "size"
LittleOnly == p.ld \in {"bytes", "adaptive", "native", "swap", "halves"} /\ p.st \in {"bytes", "adaptive", "native", "swap", "halves"} /\ p.cm = "unsigned" /\ p.ct = "size"
\* a portable program never differs; one written for little endian never differs on such machines
Quiet == Portable \/ (LittleOnly /\ ~m.be) => ~Differs
\* for each single deviation from the portable program: differs somewhere => differs on the plan.
Single == Cardinality({f \in {"ld", "st", "cm", "ct"} : p[f] \notin {"bytes", "adaptive", "unsigned"} /\ ~(f = "ct" /\ p.ct = "size")}) = 1
Name == IF p.ld \notin {"bytes", "adaptive"} THEN "load_" \o p.ld ELSE IF p.st \notin {"bytes", "adaptive"} THEN "store_" \o p.st
        ELSE IF p.cm # "unsigned" THEN "compare_" \o p.cm ELSE "count_" \o p.ct
Say(w) == PrintT(<< "CAUGHT", w >>)
Once(k, w) == IF w \in TLCGet(k) THEN TRUE ELSE TLCSet(k, TLCGet(k) \cup {w}) /\ Say(w)
ASSUME TLCSet(11, {}) /\ TLCSet(12, {})
ASSUME PrintT(<< "PLAN", {<< q.be, q.wl, q.ws, q.sc >> : q \in PlanLE \cup PlanBE} >>)
Report == Differs /\ Single /\ m \in PlanLE => Once(11, "LE_" \o Name)
ReportBE == Differs /\ Single /\ m \in PlanBE => Once(12, "BE_" \o Name)
\* the names found on any machine at all; the check compares them with those found on the plan
ReportAny == Differs /\ Single => Once(11, (IF m.be THEN "ANYBE_" ELSE "ANY_") \o Name)
================================================================================

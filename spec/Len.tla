----------------------------------- MODULE Len -----------------------------------
(***************************************************************************)
(* Lengths.  A call runs its passes one after the other; each pass runs over *)
(* one input with a counter.  In the ideal machine every counter holds the   *)
(* full 64-bit length.  In a broken one the counter of one pass is narrower: *)
(* u8, u16, u32 drop the upper bits, i32 makes 2^31..2^32-1 negative; b8, b16,*)
(* b32, bi32 count blocks instead of bytes.                                  *)
(* A probe is a call with chosen lengths.  Only what an outside observer can *)
(* see within a short time counts: whether the call has come back, how much  *)
(* output it has produced and, if it has come back, which input bytes the    *)
(* result depends on.  A pass over 2^31 bytes or more does not end in a      *)
(* short time.  The model prints the probes (the check replays them into the *)
(* code) and the broken machines which some probe of the plan exposes.       *)
(***************************************************************************)
EXTENDS LenDefs, FiniteSets, TLC, Json

CONSTANT Rate                                           \* bytes per block: 8 or 18

\* counters of bytes and counters of blocks, in so many bits, unsigned or signed
Kinds == {"u8", "u16", "u32", "i32", "b8", "b16", "b32", "bi32"}
Bits(k) == CASE k \in {"u8", "b8"} -> 8 [] k \in {"u16", "b16"} -> 16 [] OTHER -> 32
InBlocks(k) == k \in {"b8", "b16", "b32", "bi32"}
\* the number of bytes a counter of this kind covers.  The units (bytes or blocks) of a huge
\* length are m * 2^w + o (blocks of 8: w - 3; blocks of 18 = 9 * 2: only m = 9 is exact, others stay huge)
UW(k, l) == IF ~InBlocks(k) THEN l.w ELSE IF Rate = 8 THEN l.w - 3 ELSE l.w - 1
UM(k, l) == IF InBlocks(k) /\ Rate = 18 THEN l.m \div 9 ELSE l.m
Exact(k, l) == ~InBlocks(k) \/ Rate = 8 \/ l.m % 9 = 0
Seen(k, l) ==
  LET unit == IF InBlocks(k) THEN Rate ELSE 1 IN
  CASE k = "full" -> l
    [] ~Huge(l) -> IF Bits(k) = 32 THEN l ELSE L(0, (((Plain(l) \div unit) % (2 ^ Bits(k))) * unit) + (Plain(l) % unit))
    [] ~Exact(k, l) -> l
    [] OTHER -> IF UW(k, l) >= Bits(k) THEN L(0, l.o)
                ELSE IF k \in {"i32", "bi32"} /\ UW(k, l) = 31 /\ UM(k, l) % 2 = 1 THEN Zero
                ELSE l

Offs == 40
BigX == {L(31, Offs), L(32, Offs), L(33, Offs), L(40, Offs)} \cup
        (IF Rate = 8 THEN {L(34, Offs), L(35, Offs)} ELSE {LM(9, 32, Offs), LM(9, 33, Offs)})
MidX == {L(0, n) : n \in {255, 256, 300, 257 * Rate}} \cup {L(16, 0), L(16, 40), L(15, 40), L(17, 3)} \cup
        {IF Rate = 8 THEN L(19, Offs) ELSE LM(9, 17, Offs)}
Probes == [op : {"E", "D", "H"}, a : {Zero, L(0, 5)}, x : BigX \cup MidX]
          \cup [op : {"F"}, a : {L(0, 5)}, x : BigX] \cup [op : {"E", "D"}, a : BigX \cup MidX, x : {Zero, L(0, 5)}]

Variants == {[pass |-> "none", kind |-> "full"]} \cup [pass : {"enc", "dec", "maca", "macx", "hash"}, kind : Kinds]
Kind(v, p) == IF v.pass = p THEN v.kind ELSE "full"

VARIABLES v, pr, pc, back, prog, deps
vars == << v, pr, pc, back, prog, deps >>
\* prog: length of the output produced; deps: per pass, the length on which the result depends
Init == v \in Variants /\ pr \in Probes /\ pc = 1 /\ back = "no" /\ prog = Zero /\ deps = << >>
Step ==
  /\ back = "no" /\ pc <= Len(Passes(pr.op))
  /\ LET p == Passes(pr.op)[pc]  s == Seen(Kind(v, p), Over(p, pr)) IN
       /\ IF Huge(s) THEN back' = "never" /\ pc' = pc ELSE back' = back /\ pc' = pc + 1
       /\ prog' = IF p \in {"enc", "dec"} THEN s ELSE prog
       /\ deps' = Append(deps, s)
  /\ UNCHANGED << v, pr >>
Return == back = "no" /\ pc > Len(Passes(pr.op)) /\ back' = "yes" /\ UNCHANGED << v, pr, pc, prog, deps >>
Next == Step \/ Return

Ended == back # "no"
\* in the time given much more than a few hundred bytes come out, if the pass that writes is long
LowProgress == WritesLong(pr) /\ ~Huge(prog)
Insensitive == back = "yes" /\ \E q \in 1..Len(deps) : Plain(deps[q]) # Plain(Over(Passes(pr.op)[q], pr))
Exposed == back # IdealBack(pr) \/ LowProgress \/ Insensitive

IdealIsSilent == Ended /\ v.pass = "none" => ~Exposed
Report == Ended => /\ (v.pass = "none" => PrintT("PROBE " \o ToJson(<< pr.op, pr.a.m, pr.a.w, pr.a.o, pr.x.m, pr.x.w, pr.x.o, IdealBack(pr) >>)))
                   /\ (Exposed => PrintT(<< "CAUGHT", v.pass \o "_" \o v.kind, pr.op >>))
================================================================================

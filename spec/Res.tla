---------------------------------- MODULE Res -----------------------------------
(***************************************************************************)
(* A call as a machine that pushes and pops frames and may allocate or ask   *)
(* the system.  A history is short calls followed by one longer call.        *)
(* Harmless machines differ in constant amounts (buffers, depth of calls);   *)
(* broken ones take amounts that follow a length, allocate, or use the       *)
(* system, some only for particular calls.  Quiet: harmless machines are     *)
(* never accused; every broken one is, by some history.                      *)
(***************************************************************************)
EXTENDS ResDefs, FiniteSets, TLC
Harmless == {"ideal", "buffers", "deep"}
Bad == {"vla", "vlaad", "vladecrypt", "recursion", "heap", "heapleak", "heaplong", "logreject", "logempty", "entropy"}
Blk == 8
Ops == {"E", "D", "R"}
Shorts == << [op |-> "E", al |-> 0, xl |-> 0], [op |-> "D", al |-> 7, xl |-> 9], [op |-> "R", al |-> 256, xl |-> 256] >>
Lens == {0, 300, 5000, 65536}
VARIABLES v, last, n, pc, depth, top, max, heap, alloc, sys, left
vars == << v, last, n, pc, depth, top, max, heap, alloc, sys, left >>
Cur == IF n <= Len(Shorts) THEN Shorts[n] ELSE last
Init == /\ v \in Harmless \cup Bad
        /\ last \in [op : Ops, al : Lens, xl : Lens]
        /\ n = 1 /\ pc = "idle" /\ depth = 0 /\ top = 0 /\ max = 0 /\ heap = 0 /\ alloc = 0 /\ sys = 0 /\ left = 0
Push(k) == depth' = depth + k /\ max' = (IF depth + k > max THEN depth + k ELSE max)
Frame == CASE v = "vla" -> 200 + Cur.xl
           [] v = "vlaad" -> 200 + Cur.al
           [] v = "vladecrypt" /\ Cur.op = "D" -> 200 + Cur.xl
           [] v = "buffers" -> 200 + (IF Cur.xl > Small THEN 1024 ELSE 0)
           [] OTHER -> 200
Call == /\ pc = "idle" /\ n <= Len(Shorts) + 1 /\ pc' = "mac" /\ max' = 0 /\ alloc' = 0 /\ sys' = 0 /\ depth' = 0 /\ left' = 0
        /\ UNCHANGED << v, last, n, top, heap >>
Mac == /\ pc = "mac" /\ Push(Frame) /\ pc' = "alloc" /\ left' = Cur.xl \div Blk /\ UNCHANGED << v, last, n, top, heap, alloc, sys >>
Alloc == /\ pc = "alloc" /\ pc' = "enc"
         /\ LET k == CASE v \in {"heap", "heapleak"} -> 1 [] v = "heaplong" /\ Cur.xl > 4096 -> 1 [] OTHER -> 0
            IN alloc' = alloc + k /\ heap' = heap + k
         /\ UNCHANGED << v, last, n, depth, top, max, sys, left >>
\* blocks one by one: in a loop, or each in a frame of its own (a bundle of 64 blocks per step)
Enc == /\ pc = "enc"
       /\ IF left = 0 THEN pc' = "free" /\ UNCHANGED << depth, max, left >>
          ELSE /\ left' = (IF left < 64 THEN 0 ELSE left - 64) /\ pc' = pc
               /\ IF v = "recursion" THEN Push(32 * (IF left < 64 THEN left ELSE 64))
                  ELSE IF v = "deep" /\ left = Cur.xl \div Blk THEN Push(800) ELSE UNCHANGED << depth, max >>
       /\ UNCHANGED << v, last, n, top, heap, alloc, sys >>
Free == /\ pc = "free" /\ pc' = "system" /\ heap' = (IF v = "heapleak" THEN heap ELSE 0) /\ UNCHANGED << v, last, n, depth, top, max, alloc, sys, left >>
System == /\ pc = "system" /\ pc' = "return"
          /\ sys' = (CASE v = "logreject" /\ Cur.op = "R" -> 1 [] v = "logempty" /\ Cur.xl = 0 /\ Cur.al > 0 -> 1 [] v = "entropy" -> 1 [] OTHER -> 0)
          /\ UNCHANGED << v, last, n, depth, top, max, heap, alloc, left >>
Event == [op |-> Cur.op, al |-> Cur.al, xl |-> Cur.xl, fault |-> IF max > 8000000 THEN 1 ELSE 0, depth |-> max, alloc |-> alloc, sys |-> sys]
Return == /\ pc = "return" /\ pc' = "idle" /\ n' = n + 1 /\ depth' = 0 /\ top' = Deeper(top, Event)
          /\ UNCHANGED << v, last, max, heap, alloc, sys, left >>
Next == Call \/ Mac \/ Alloc \/ Enc \/ Free \/ System \/ Return
Accused == pc = "return" /\ Broken(top, Event) # {}
Quiet == v \in Harmless => ~Accused
TypeOK == depth >= 0 /\ max >= depth /\ (heap > 0 => v \in {"heap", "heapleak", "heaplong"})
Report == Accused => PrintT(<< "CAUGHT", v >>)
================================================================================

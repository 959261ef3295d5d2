-------------------------------- MODULE ResDefs ---------------------------------
(***************************************************************************)
(* What a call may take from its environment: a stack whose depth does not   *)
(* depend on the lengths of the inputs, nothing from the heap, nothing from  *)
(* the operating system.  The depth allowed is learned from calls with short *)
(* inputs (at most Small bytes), which come first in a history.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Small == 256
Slack == 2048
IsSmall(e) == e.al <= Small /\ e.xl <= Small
Deeper(top, e) == IF IsSmall(e) /\ e.fault = 0 /\ e.depth > top THEN e.depth ELSE top
\* top: largest depth of the short calls so far
FlatStack(top, e) == e.fault = 0 /\ (~IsSmall(e) => e.depth <= top + Slack)
\* a short call may not need more than a page per byte either
ShortStack(e) == IsSmall(e) => e.depth <= 65536
NoHeap(e) == e.alloc = 0
NoSystem(e) == e.sys # 1
Broken(top, e) == (IF FlatStack(top, e) THEN {} ELSE {"FlatStack"}) \cup (IF ShortStack(e) THEN {} ELSE {"ShortStack"})
                  \cup (IF NoHeap(e) THEN {} ELSE {"NoHeap"}) \cup (IF NoSystem(e) THEN {} ELSE {"NoSystem"})
================================================================================

---------------------------------- MODULE Sched ----------------------------------
(***************************************************************************)
(* Overlapping calls.  Every call runs a fixed program over memory cells:   *)
(* it derives a session word from its argument, stores it, absorbs it and   *)
(* writes its result.  A variant says where the cells live:                 *)
(*   frame    on the stack of the call                                      *)
(*   tls      in thread-local storage                                       *)
(*   static   in static storage                                             *)
(*   tagbuf   on the stack, except the word that is compared at the end     *)
(*   cache    on the stack, but the session word is kept for equal keys in  *)
(*            static storage (key stored before the word)                   *)
(*   table    a static table filled on first use, table before flag         *)
(*   flagged  a static table filled on first use, flag before table         *)
(*   locked   in static storage under a lock that is taken for the call     *)
(* mode "threads": calls in different threads, any interleaving;            *)
(* mode "signal": the second call starts at any point of the first one in   *)
(* the same thread and runs to completion before the first one continues.   *)
(* The result of every finished call is the result it has alone.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Variants == {"frame", "tls", "static", "tagbuf", "cache", "table", "flagged", "locked"}
VARIABLES variant, mode, arg, pc, cell, static, result, path
vars == << variant, mode, arg, pc, cell, static, result, path >>
Calls == {1, 2}
Args == {[k |-> 1, x |-> 2], [k |-> 1, x |-> 5], [k |-> 4, x |-> 2]}
Session(k) == (7 * k + 3) % 16
Absorb(s, x) == (5 * s + x + 1) % 16
F(a) == Absorb(Absorb(Session(a.k), a.x), a.x)

Thread(c) == IF mode = "threads" THEN c ELSE 1
Where(c, w) ==          \* which cell a call uses for word w
  CASE variant \in {"static", "locked"} -> << "static", w >>
    [] variant = "tls" -> << "thread", Thread(c), w >>
    [] variant = "tagbuf" /\ w = "t" -> << "static", w >>
    [] OTHER -> << "frame", c, w >>
Read(c, w) == IF Where(c, w) \in DOMAIN cell THEN cell[Where(c, w)] ELSE 0
Write(c, w, v) == cell' = (Where(c, w) :> v) @@ cell

Init ==
  /\ variant \in Variants /\ mode \in {"threads", "signal"}
  /\ arg \in [Calls -> Args]
  /\ pc = [c \in Calls |-> "start"] /\ cell = << >> /\ result = [c \in Calls |-> -1]
  /\ static = [flag |-> 0, tab |-> 0, ckey |-> 0, cval |-> 0, lock |-> 0]
  /\ path = << >>

Runnable(c) == \* in signal mode call 2 runs to completion once it has started
  IF mode = "threads" THEN TRUE
  ELSE IF c = 1 THEN pc[2] \in {"start", "done"} ELSE pc[1] # "start" /\ pc[1] # "done"

Goto(c, l) == pc' = [pc EXCEPT ![c] = l]
Start(c) == /\ pc[c] = "start"
            /\ IF variant = "locked" THEN static.lock = 0 /\ static' = [static EXCEPT !.lock = c] ELSE UNCHANGED static
            /\ Goto(c, "init") /\ UNCHANGED << cell, result >>
\* tables filled on first use
Fill(c) == /\ pc[c] = "init"
           /\ CASE variant = "table" /\ static.flag = 0 -> static' = [static EXCEPT !.tab = 1] /\ Goto(c, "flag")
                [] variant = "flagged" /\ static.flag = 0 -> static' = [static EXCEPT !.flag = 1] /\ Goto(c, "fill2")
                [] OTHER -> UNCHANGED static /\ Goto(c, "rk")
           /\ UNCHANGED << cell, result >>
Flag(c) == pc[c] = "flag" /\ static' = [static EXCEPT !.flag = 1] /\ Goto(c, "rk") /\ UNCHANGED << cell, result >>
Fill2(c) == pc[c] = "fill2" /\ static' = [static EXCEPT !.tab = 1] /\ Goto(c, "rk") /\ UNCHANGED << cell, result >>
Rk(c) == /\ pc[c] = "rk"
         /\ LET s0 == Session(arg[c].k)
                s == IF variant \in {"table", "flagged"} /\ static.tab = 0 THEN s0 + 1 ELSE s0
            IN IF variant = "cache" /\ static.ckey = arg[c].k
               THEN Write(c, "s", static.cval) /\ Goto(c, "absorb1") /\ UNCHANGED static
               ELSE IF variant = "cache"
               THEN Write(c, "s", s) /\ static' = [static EXCEPT !.ckey = arg[c].k] /\ Goto(c, "keep")
               ELSE Write(c, "s", s) /\ Goto(c, "absorb1") /\ UNCHANGED static
         /\ UNCHANGED result
Keep(c) == pc[c] = "keep" /\ static' = [static EXCEPT !.cval = Read(c, "s")] /\ Goto(c, "absorb1") /\ UNCHANGED << cell, result >>
Absorb1(c) == pc[c] = "absorb1" /\ Write(c, "s", Absorb(Read(c, "s"), arg[c].x)) /\ Goto(c, "absorb2") /\ UNCHANGED << static, result >>
Absorb2(c) == pc[c] = "absorb2" /\ Write(c, "t", Absorb(Read(c, "s"), arg[c].x)) /\ Goto(c, "out") /\ UNCHANGED << static, result >>
Out(c) == /\ pc[c] = "out" /\ result' = [result EXCEPT ![c] = Read(c, "t")] /\ Goto(c, "done")
          /\ static' = IF variant = "locked" THEN [static EXCEPT !.lock = 0] ELSE static
          /\ UNCHANGED cell
StepOf(c) == Start(c) \/ Fill(c) \/ Flag(c) \/ Fill2(c) \/ Rk(c) \/ Keep(c) \/ Absorb1(c) \/ Absorb2(c) \/ Out(c)
Next == \E c \in Calls : Runnable(c) /\ StepOf(c) /\ path' = Append(path, c) /\ UNCHANGED << variant, mode, arg >>

Alone == \A c \in Calls : pc[c] = "done" => result[c] = F(arg[c])
Good == IF mode = "threads" THEN {"frame", "tls", "table", "locked"} ELSE {"frame", "table"}
Ideal == variant \in Good => Alone /\ ~(mode = "signal" /\ pc[1] \notin {"start", "done"} /\ pc[2] \notin {"start", "done"} /\ ~ENABLED StepOf(2))
Blocked == mode = "signal" /\ variant = "locked" /\ static.lock = 1 /\ pc[2] = "start" /\ pc[1] \notin {"start", "done"}
Report == (~Alone \/ Blocked) => PrintT(<< "CAUGHT", variant \o "_" \o mode, path >>)
View == << variant, mode, arg, pc, cell, static, result >>
================================================================================

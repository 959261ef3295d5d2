-------------------------------- MODULE LenTrace --------------------------------
(***************************************************************************)
(* Judges what was observed when the probes of Len.tla ran in the code.      *)
(* "long": the call got a fraction of a second of processor time.            *)
(*   state 0 it came back, 1 still running, 2 memory fault; wild: the fault   *)
(*   lies outside the caller's buffers; prog: highest output byte written     *)
(*   (up to some millions); lenw: "exact", "low32" or "other"                 *)
(* "sens": a call of moderate length, its decryption, and both again with one *)
(*   input byte changed: flips = sequence of << same tag, accepted >>         *)
(* "full": encryption and decryption of a huge message run to their end.      *)
(***************************************************************************)
EXTENDS LenDefs, TLC, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Rec(g) == TLCGet(1)[g]
Clauses == {"CameBackEarly", "OutsideBuffers", "OutputCut", "LengthCut", "DidNotComeBack", "Insensitive", "AcceptsChanged", "LongRoundTrip"}
Some == 4096                \* far less than any implementation writes in the time given, far more than a cut length gives
Breaks(r, c) ==
  CASE c = "CameBackEarly" -> r.t = "long" /\ IdealBack(r) = "never" /\ r.state = 0 /\ (r.op = "F" => r.ret = 0)
    [] c = "OutsideBuffers" -> r.t = "long" /\ r.state = 2 /\ r.wild = 1
    [] c = "OutputCut" -> r.t = "long" /\ WritesLong(r) /\ r.op = "E" /\ r.state = 1 /\ r.prog < Some
    [] c = "LengthCut" -> r.t # "sens" /\ r.lenw = "low32"
    [] c = "DidNotComeBack" -> r.t = "sens" /\ r.fault # 0
    [] c = "Insensitive" -> r.t = "sens" /\ \E q \in 1..Len(r.flips) : r.flips[q][1] = 1
    [] c = "AcceptsChanged" -> r.t = "sens" /\ \E q \in 1..Len(r.flips) : r.flips[q][2] = 1
    [] c = "LongRoundTrip" ->
         IF r.t = "sens" THEN r.fault = 0 /\ (r.good = 0 \/ r.ret # 0)
         ELSE r.t = "full" /\ ~(r.fault = 0 /\ r.re = 0 /\ r.rd = 0 /\ r.lenw = "exact" /\ r.same = 1)
VARIABLE g
TInit == g \in 1..Len(TLCGet(1)) /\ LET f == {c \in Clauses : Breaks(Rec(g), c)} IN
           IF f = {} THEN PrintT(<< "OK", g >>) ELSE PrintT(<< "BAD", g, 1, f >>)
TNext == UNCHANGED g
================================================================================

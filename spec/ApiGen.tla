--------------------------------- MODULE ApiGen ---------------------------------
(***************************************************************************)
(* Enumerates call histories for the interface: all sequences of Depth       *)
(* abstract calls over a small world of nearly equal arguments.  The world:   *)
(* slot 1 is the base input; the other slots differ from it in exactly one    *)
(* component (key, nonce, associated data, message, or an empty part).        *)
(*   << "E", s >>      encrypt slot s                                         *)
(*   << "D", s, how >> decrypt what slot s encrypts to: "ok", or with one     *)
(*                     thing wrong ("tag", "ct", "ad", "nonce", "key",         *)
(*                     "short", "cut")                                        *)
(*   << "H", s >>      hash slot s                                            *)
(* An implementation without memory treats the last call of each history as   *)
(* if it were the first; every history is printed and replayed.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Wide
Slots == IF Wide THEN 1..6 ELSE 1..3
Hows  == IF Wide THEN {"ok", "tag", "ct", "ad", "nonce", "key", "short", "cut"} ELSE {"ok", "tag", "short"}
DSlots == IF Wide THEN {1, 2, 4} ELSE {1, 2}
Calls == { << "E", s, "-" >> : s \in Slots } \cup { << "D", s, h >> : s \in DSlots, h \in Hows }
         \cup { << "H", s, "-" >> : s \in {1, 2} }

VARIABLE hist
GInit == hist = <<>>
GNext == Len(hist) < Depth /\ \E c \in Calls : hist' = Append(hist, c)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
================================================================================

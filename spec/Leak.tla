---------------------------------- MODULE Leak ----------------------------------
(***************************************************************************)
(* What an observer of the machine may learn from one call.  An observation *)
(* is the sequence of executed instructions (ctl) and the sequence of       *)
(* accessed addresses (adr).  The public part of a call is its operation,   *)
(* its lengths, nonce, associated data, ciphertext body and - for           *)
(* decryption - the decision.  Key, plaintext and tag (presented and        *)
(* computed) are secret, and so is the position at which two tags differ.   *)
(* Two calls with the same public part have the same observation.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE seen           \* public part -> observation of the first such call

View(e) == << e.op, e.n, e.a, e.body, e.ret >>
Obs(e) == [ctl |-> e.ctl, adr |-> e.adr]

LeakClause(e, c) ==
  LET v == View(e) IN
  v \in DOMAIN seen =>
    CASE c = "SameControl" -> seen[v].ctl = e.ctl
      [] c = "SameAddresses" -> seen[v].adr = e.adr
LeakClauses == {"SameControl", "SameAddresses"}
LeakFailing(e) == {c \in LeakClauses : ~LeakClause(e, c)}

LeakInit == seen = << >>
LeakRecord(e) == seen' = IF View(e) \in DOMAIN seen THEN seen ELSE (View(e) :> Obs(e)) @@ seen
================================================================================

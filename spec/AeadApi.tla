-------------------------------- MODULE AeadApi --------------------------------
(***************************************************************************)
(* The library as its users see it: an authenticated encryption and a hash  *)
(* interface whose calls have an OUTCOME and leave no other trace.          *)
(*                                                                         *)
(* State: what has been issued so far.                                      *)
(*   issued   function  <<alg,k,n,a,m>> -> ciphertext (with tag)            *)
(*   opened   function  <<alg,k,n,a,c>> -> message                          *)
(*   hashed   function  input -> digest                                     *)
(*   rejected set of <<alg,k,n,a,c>> that a decryption refused              *)
(* A call is a record                                                       *)
(*   op "E" "D" "H", alg, k, n, a, x (the message, the ciphertext with tag, *)
(*   or the hash input), xl = length of x in bytes.                         *)
(* Its outcome is a record                                                  *)
(*   ret   0 success, 1 anything else     len   the length reported         *)
(*   out   the output bytes (of a successful call)                          *)
(*   rel   "none": after a rejection every output byte is what it was       *)
(*         before the call or zero; "dirty" otherwise                       *)
(*   fault 0/1  the call did not return                                     *)
(*   inp   1: input buffers intact     slack 1: bytes around output intact  *)
(*                                                                         *)
(* Every clause below is one thing users rely on; Failing(c,o) is the set   *)
(* of clauses an outcome o of call c breaks in the current state.  Calls    *)
(* act on the state by Record.  The same operators are used                 *)
(*   - by ApiTrace, to judge recorded histories of the real code,           *)
(*   - by MCAeadApi, where outcomes come from an ideal implementation or    *)
(*     from deliberately broken ones (the clauses must tell them apart),    *)
(*   - by ApiGen, which enumerates call histories to replay.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES issued, opened, hashed, rejected
apivars == << issued, opened, hashed, rejected >>

TagLen == 16
EncKey(c) == << c.alg, c.k, c.n, c.a, c.x >>      \* also the key of a decryption

ApiInit == issued = <<>> /\ opened = <<>> /\ hashed = <<>> /\ rejected = {}

Genuine(c) == c.op = "D" /\ EncKey(c) \in DOMAIN opened

\* ---- the clauses ----------------------------------------------------------
\* every call returns
Returns(c, o)     == o.fault = 0
\* inputs and the surroundings of the output stay as they are
InputsKept(c, o)  == o.inp = 1
SlackKept(c, o)   == o.slack = 1
\* encryption succeeds, with a ciphertext that is 16 bytes longer than the message
EncSucceeds(c, o) == c.op = "E" => (o.fault = 0 /\ o.ret = 0 /\ o.len = c.xl + TagLen)
HashSucceeds(c, o) == c.op = "H" => (o.fault = 0 /\ o.ret = 0)
\* the outcome is a function of the arguments
EncSame(c, o)  == (c.op = "E" /\ o.fault = 0 /\ o.ret = 0 /\ EncKey(c) \in DOMAIN issued) => o.out = issued[EncKey(c)]
HashSame(c, o) == (c.op = "H" /\ o.fault = 0 /\ o.ret = 0 /\ c.x \in DOMAIN hashed) => o.out = hashed[c.x]
DecSame(c, o)  == (c.op = "D" /\ o.fault = 0 /\ EncKey(c) \in rejected) => o.ret # 0
\* two messages never get the same ciphertext
EncInvertible(c, o) ==
  (c.op = "E" /\ o.fault = 0 /\ o.ret = 0 /\ << c.alg, c.k, c.n, c.a, o.out >> \in DOMAIN opened)
     => opened[<< c.alg, c.k, c.n, c.a, o.out >>] = c.x
\* what was issued opens to the message it was issued for
GenuineOpens(c, o) == Genuine(c) => (o.fault = 0 /\ o.ret = 0 /\ o.out = opened[EncKey(c)] /\ o.len = c.xl - TagLen)
\* nothing else opens
OnlyGenuine(c, o) == (c.op = "D" /\ o.fault = 0 /\ o.ret = 0) => Genuine(c)
\* a rejected call releases nothing
NoRelease(c, o)   == (c.op = "D" /\ o.ret # 0) => o.rel = "none"
\* less than a tag: rejected, nothing written, nothing else touched
ShortRejected(c, o) == (c.op = "D" /\ c.xl < TagLen) =>
                         (o.fault = 0 /\ o.ret # 0 /\ o.rel = "none" /\ o.slack = 1 /\ o.inp = 1)

ClauseNames == { "Returns", "InputsKept", "SlackKept", "EncSucceeds", "HashSucceeds", "EncSame",
                 "HashSame", "DecSame", "EncInvertible", "GenuineOpens", "OnlyGenuine", "NoRelease", "ShortRejected" }
Holds(name, c, o) ==
  CASE name = "Returns"       -> Returns(c, o)
    [] name = "InputsKept"    -> InputsKept(c, o)
    [] name = "SlackKept"     -> SlackKept(c, o)
    [] name = "EncSucceeds"   -> EncSucceeds(c, o)
    [] name = "HashSucceeds"  -> HashSucceeds(c, o)
    [] name = "EncSame"       -> EncSame(c, o)
    [] name = "HashSame"      -> HashSame(c, o)
    [] name = "DecSame"       -> DecSame(c, o)
    [] name = "EncInvertible" -> EncInvertible(c, o)
    [] name = "GenuineOpens"  -> GenuineOpens(c, o)
    [] name = "OnlyGenuine"   -> OnlyGenuine(c, o)
    [] name = "NoRelease"     -> NoRelease(c, o)
    [] name = "ShortRejected" -> ShortRejected(c, o)
Failing(c, o) == { name \in ClauseNames : ~Holds(name, c, o) }

\* ---- how a call changes the state -------------------------------------------
Put(f, x, y) == IF x \in DOMAIN f THEN f ELSE (x :> y) @@ f
Record(c, o) ==
  /\ issued' = IF c.op = "E" /\ o.fault = 0 /\ o.ret = 0 THEN Put(issued, EncKey(c), o.out) ELSE issued
  /\ opened' = IF c.op = "E" /\ o.fault = 0 /\ o.ret = 0
               THEN Put(opened, << c.alg, c.k, c.n, c.a, o.out >>, c.x) ELSE opened
  /\ hashed' = IF c.op = "H" /\ o.fault = 0 /\ o.ret = 0 THEN Put(hashed, c.x, o.out) ELSE hashed
  /\ rejected' = IF c.op = "D" /\ o.fault = 0 /\ o.ret # 0 THEN rejected \cup { EncKey(c) } ELSE rejected

\* ---- state invariants ------------------------------------------------------------
\* what was issued can be opened
OpenedMatches == \A e \in DOMAIN issued : LET c == << e[1], e[2], e[3], e[4], issued[e] >> IN
                    c \in DOMAIN opened /\ opened[c] = e[5]
NeverBoth == rejected \cap DOMAIN opened = {}
================================================================================

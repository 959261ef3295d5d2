------------------------------- MODULE MCAeadApi -------------------------------
(***************************************************************************)
(* The interface specification against an ideal implementation and against  *)
(* a catalogue of broken ones.  For the ideal one no clause ever fails (so   *)
(* the clauses cannot raise an alarm on a correct library); for every       *)
(* broken one some history of at most Depth calls makes its clauses fail    *)
(* (so the clauses are not vacuous).  Outcomes are symbolic: the ciphertext *)
(* of (k,n,a,m) is the term <<"c",k,n,a,m>>, a forgery is <<"f",term>>, a   *)
(* ciphertext shorter than a tag is <<"s",term>>.                           *)
(***************************************************************************)
EXTENDS AeadApi

CONSTANTS Depth, Impls

VARIABLES impl, last, count, verdict
mcvars == << issued, opened, hashed, rejected, impl, last, count, verdict >>

Keys == 1..2
Nonces == 1..2
Ads == 0..1
Msgs == { << "m", 0 >>, << "m", 1 >> }
Flip(m) == << "m", 1 - m[2] >>
None == [op |-> "none", alg |-> 0, k |-> 0, n |-> 0, a |-> 0, x |-> << "m", 0 >>, xl |-> 0]
Ct(k, n, a, m) == << "c", k, n, a, m >>
Cts == { Ct(k, n, a, m) : k \in Keys, n \in 1..1, a \in Ads, m \in Msgs }
Presented == Cts \cup { << "f", t >> : t \in Cts } \cup { << "s", t >> : t \in { Ct(1, 1, 0, << "m", 0 >>) } }
Xl(x) == IF x[1] = "s" THEN 15 ELSE 17

Calls ==
  { [op |-> "E", alg |-> 1, k |-> k, n |-> n, a |-> a, x |-> m, xl |-> 1] : k \in Keys, n \in 1..1, a \in Ads, m \in Msgs }
  \cup { [op |-> "D", alg |-> 1, k |-> k, n |-> n, a |-> a, x |-> x, xl |-> Xl(x)] :
         k \in Keys, n \in 1..1, a \in Ads, x \in Presented }
  \cup { [op |-> "H", alg |-> 1, k |-> 0, n |-> 0, a |-> 0, x |-> x, xl |-> 1] : x \in Msgs }

Good(out, len) == [ret |-> 0, out |-> out, len |-> len, rel |-> "none", fault |-> 0, inp |-> 1, slack |-> 1]
Refuse == [ret |-> 1, out |-> << "m", 9 >>, len |-> 0, rel |-> "none", fault |-> 0, inp |-> 1, slack |-> 1]

Ideal(c) ==
  CASE c.op = "E" -> Good(Ct(c.k, c.n, c.a, c.x), 17)
    [] c.op = "H" -> Good(<< "h", c.x >>, 32)
    [] c.op = "D" -> IF c.x[1] = "c" /\ SubSeq(c.x, 2, 4) = << c.k, c.n, c.a >>
                     THEN Good(c.x[5], 1) ELSE Refuse

\* broken implementations; last is the previous call (or 0)
Outcome(im, c) ==
  LET o == Ideal(c) IN
  CASE im = "ideal"    -> o
    \* accepts whatever is presented
    [] im = "accept"   -> IF c.op = "D" /\ o.ret = 1 /\ c.x[1] = "f" THEN Good(c.x[2][5], 1) ELSE o
    \* forgets the associated data when it verifies
    [] im = "noad"     -> IF c.op = "D" /\ c.x[1] = "c" /\ SubSeq(c.x, 2, 3) = << c.k, c.n >> THEN Good(c.x[5], 1) ELSE o
    \* forgets the key when it verifies
    [] im = "nokey"    -> IF c.op = "D" /\ c.x[1] = "c" /\ SubSeq(c.x, 3, 4) = << c.n, c.a >> THEN Good(c.x[5], 1) ELSE o
    \* refuses some genuine ciphertexts
    [] im = "refuse"   -> IF c.op = "D" /\ o.ret = 0 /\ c.x[5] = << "m", 1 >> THEN Refuse ELSE o
    \* refuses genuine ciphertexts after it refused a forgery
    [] im = "sticky"   -> IF c.op = "D" /\ o.ret = 0 /\ last.op = "D" /\ last.x[1] = "f" THEN Refuse ELSE o
    \* opens to another message
    [] im = "garble"   -> IF c.op = "D" /\ o.ret = 0 THEN Good(Flip(c.x[5]), 1) ELSE o
    \* writes plaintext although it refuses
    [] im = "release"  -> IF c.op = "D" /\ c.x[1] = "f" THEN [Refuse EXCEPT !.rel = "dirty"] ELSE o
    \* crashes on, accepts, or writes for short ciphertexts
    [] im = "shortcrash"  -> IF c.op = "D" /\ c.x[1] = "s" THEN [Refuse EXCEPT !.fault = 1] ELSE o
    [] im = "shortaccept" -> IF c.op = "D" /\ c.x[1] = "s" THEN Good(<< "m", 8 >>, 0) ELSE o
    [] im = "shortwrite"  -> IF c.op = "D" /\ c.x[1] = "s" THEN [Refuse EXCEPT !.slack = 0] ELSE o
    \* the key of the previous call is used
    [] im = "stale"    -> IF c.op = "E" /\ last.op = "E" THEN Good(Ct(last.k, c.n, c.a, c.x), 17) ELSE o
    [] im = "stalehash" -> IF c.op = "H" /\ last.op = "E" THEN Good(<< "h", << "m", 2 >> >>, 32) ELSE o
    \* a counter changes the behaviour of a later call
    [] im = "counter"  -> IF c.op = "E" /\ count = 2 THEN Good(Ct(c.k, c.n, 1 - c.a, c.x), 17) ELSE o
    \* two messages, one ciphertext
    [] im = "collide"  -> IF c.op = "E" THEN Good(Ct(c.k, c.n, c.a, << "m", 0 >>), 17) ELSE o
    [] im = "overrun"  -> IF c.op = "E" THEN [o EXCEPT !.slack = 0] ELSE o
    [] im = "clobber"  -> IF c.op = "E" THEN [o EXCEPT !.inp = 0] ELSE o
    [] im = "badlen"   -> IF c.op = "E" THEN [o EXCEPT !.len = 16] ELSE o
    [] im = "encfail"  -> IF c.op = "E" /\ c.x = << "m", 1 >> THEN Refuse ELSE o
    [] im = "hashfail" -> IF c.op = "H" THEN Refuse ELSE o
    [] im = "crash"    -> IF c.op = "E" /\ c.a = 1 THEN [o EXCEPT !.fault = 1] ELSE o

AllImpls == { "ideal", "accept", "noad", "nokey", "refuse", "sticky", "garble", "release", "shortcrash",
              "shortaccept", "shortwrite", "stale", "stalehash", "counter", "collide", "overrun", "clobber",
              "badlen", "encfail", "hashfail", "crash" }

MCInit == ApiInit /\ impl \in Impls /\ last = None /\ count = 0 /\ verdict = {}
\* decryptions of ciphertexts nobody issued yet are not presented: forging them is
\* excluded by cryptography, which a symbolic model expresses by leaving them out
Presentable(c) == c.op = "D" => LET t == IF c.x[1] = "c" THEN c.x ELSE c.x[2]
                                IN  \E e \in DOMAIN issued : issued[e] = t
Do(c) ==
  /\ Presentable(c)
  /\ LET o == Outcome(impl, c) IN verdict' = Failing(c, o) /\ Record(c, o)
  /\ last' = c /\ count' = count + 1 /\ UNCHANGED impl
MCNext == count < Depth /\ verdict = {} /\ \E c \in Calls : Do(c)

\* the ideal implementation never fails a clause
IdealClean == impl = "ideal" => verdict = {}
\* and keeps the state consistent
IdealState == impl = "ideal" => (OpenedMatches /\ NeverBoth)
\* which clauses expose which broken implementation (collected for the report)
Report == verdict # {} => PrintT(<< "CAUGHT", impl, verdict >>)
================================================================================

--------------------------------- MODULE MCLeak ---------------------------------
(***************************************************************************)
(* The ISAP call structure over a toy permutation, with the events an       *)
(* observer sees, composed with itself: all histories of two calls.  The    *)
(* ideal machine satisfies Leak; every broken one of Broken does not; the   *)
(* variants in Harmless (branches and tables on public data) do.            *)
(***************************************************************************)
EXTENDS Leak, Bitwise
Broken == {"earlyexit", "keybranch", "skipzeroword", "table", "firsthalf", "zerotail"}
Harmless == {"ideal", "publicbranch", "publictable", "lengthbranch"}
VARIABLES v, calls, bad

P(s) == (5 * s + 3) % 16
Bits(y) == << (y \div 8) % 2, (y \div 4) % 2, (y \div 2) % 2, y % 2 >>
\* re-keying: one bit of y at a time
RECURSIVE RkS(_, _, _)
RkS(s, b, i) == IF i > Len(b) THEN s ELSE RkS(P(s ^^ (b[i] * 8)), b, i + 1)
Rk(k, y) == RkS(k, Bits(y), 1)
RECURSIVE RkLeakS(_, _, _, _)
RkLeakS(w, s, b, i) ==
  IF i > Len(b) THEN << >>
  ELSE LET s2 == s ^^ (b[i] * 8) IN
       (CASE w = "publicbranch" -> << <<"b", b[i]>> >>
          [] w = "keybranch" /\ s2 >= 8 -> << <<"kb">> >>
          [] OTHER -> << >>) \o << <<"rk", i>> >> \o RkLeakS(w, P(s2), b, i + 1)
RkLeak(w, k, y) == RkLeakS(w, k, Bits(y), 1)
RkAddr(w, k, y) == CASE w = "table" -> << P(k) >> [] w = "publictable" -> << y >> [] OTHER -> << >>

Ks(k, n, j) == P(Rk(k, n) ^^ j) % 4
Crypt(k, n, x) == [j \in 1..Len(x) |-> x[j] ^^ Ks(k, n, j)]
Hash(n, c) == LET h == (IF Len(c) = 0 THEN 5 ELSE IF Len(c) = 1 THEN c[1] + 9 ELSE 3 * c[1] + c[2]) IN P((n * 7 + h) % 16)
Tag(k, n, c) == LET t == P(Rk((k + 1) % 16, Hash(n, c))) IN << t \div 8, (t \div 4) % 2 >>
Flat(ss) == LET RECURSIVE F(_) F(i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o F(i + 1) IN F(1)
EncLeak(w, k, n, m) ==
  RkLeak(w, k, n) \o
  Flat([j \in 1..Len(m) |-> IF w = "skipzeroword" /\ m[j] = 0 THEN << <<"ks", j>> >> ELSE << <<"ks", j>>, <<"xor", j>> >>]) \o
  (IF w = "lengthbranch" /\ Len(m) = 2 THEN << <<"two">> >> ELSE << >>) \o
  (IF w = "zerotail" /\ Len(m) > 0 /\ m[Len(m)] = 0 THEN << <<"cut">> >> ELSE << >>)
MacLeak(w, k, n, c) == [j \in 1..Len(c) |-> <<"abs", j>>] \o RkLeak(w, (k + 1) % 16, Hash(n, c))
CmpLeak(w, t, u) ==
  CASE w = "earlyexit" -> IF t[1] # u[1] THEN << <<"cmp", 1>> >> ELSE << <<"cmp", 1>>, <<"cmp", 2>> >>
    [] w = "firsthalf" -> IF t[1] # u[1] THEN << <<"cmp", 1>>, <<"cmp", 2>>, <<"out">> >> ELSE << <<"cmp", 1>>, <<"cmp", 2>> >>
    [] OTHER -> << <<"cmp", 1>>, <<"cmp", 2>> >>

Keys == {0, 5, 11, 14}
Msgs == {<< >>, <<0>>, <<2>>, <<0, 3>>, <<1, 0>>}
Tags == {0, 1} \X {0, 1}
Enc(w, k, n, m) ==
  LET c == Crypt(k, n, m) IN
  [op |-> "E", n |-> n, a |-> "", body |-> c, ret |-> 0,
   ctl |-> EncLeak(w, k, n, m) \o MacLeak(w, k, n, c), adr |-> RkAddr(w, k, n) \o RkAddr(w, (k + 1) % 16, Hash(n, c))]
Dec(w, k, n, c, t) ==
  LET ok == Tag(k, n, c) = t IN
  [op |-> "D", n |-> n, a |-> "", body |-> c, ret |-> IF ok THEN 0 ELSE 1,
   ctl |-> MacLeak(w, k, n, c) \o CmpLeak(w, Tag(k, n, c), t) \o (IF ok THEN EncLeak(w, k, n, Crypt(k, n, c)) ELSE << <<"rej">> >>),
   adr |-> RkAddr(w, (k + 1) % 16, Hash(n, c)) \o (IF ok THEN RkAddr(w, k, n) ELSE << >>)]

Init == v \in Broken \cup Harmless /\ calls = 0 /\ bad = FALSE /\ LeakInit
Do(e) == LeakRecord(e) /\ bad' = (bad \/ LeakFailing(e) # {}) /\ calls' = calls + 1 /\ UNCHANGED v
Next == calls < 2 /\
  \/ \E k \in Keys, n \in {1, 6}, m \in Msgs : Do(Enc(v, k, n, m))
  \/ \E k \in Keys, n \in {1, 6}, c \in Msgs, t \in Tags : Do(Dec(v, k, n, c, t))
\* the ideal machine and the harmless variants never violate the property
Quiet == v \in Harmless => ~bad
\* printed once per broken machine that is caught
Caught == bad /\ TLCGet(10 + Len(v)) # v => PrintT(<< "CAUGHT", v >>) /\ TLCSet(10 + Len(v), v)
ASSUME \A i \in 10..40 : TLCSet(i, "")
================================================================================

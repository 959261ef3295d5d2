--------------------------------- MODULE Forge ---------------------------------
(***************************************************************************)
(* What an adversary can present: every state is an input of decryption      *)
(* reached from an authentic one by Depth modifications.  The trace file     *)
(* holds the authentic records (k, n, a, x = ciphertext with tag, rate, and   *)
(* flips: which bits of a byte are flipped one by one).  Every state that     *)
(* differs from its authentic record is printed, to be replayed into the      *)
(* implementations.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise

CONSTANT Depth
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Recs == TLCGet(1)

VARIABLES r, v, d, how
fvars == << r, v, d, how >>

R == Recs[r]
Auth == [k |-> R.k, n |-> R.n, a |-> R.a, x |-> R.x]
Bits == { 2 ^ R.flips[q] : q \in 1..Len(R.flips) }
TagAt(xs) == Len(xs) - 15                              \* index of the first tag byte
HasTag(xs) == Len(xs) >= 16
TagIdx(xs) == TagAt(xs)..Len(xs)

FlipAt(s, p, m) == [s EXCEPT ![p] = @ ^^ m]
Map16(xs, F(_, _)) == [p \in 1..Len(xs) |-> IF p < TagAt(xs) THEN xs[p] ELSE F(p - TagAt(xs), xs[p])]

To(vv, name) == v' = vv /\ how' = Append(how, name)

\* one bit of one byte of one component
FlipKey   == \E p \in 1..16 : \E m \in Bits : To([v EXCEPT !.k = FlipAt(@, p, m)], "key bit")
FlipNonce == \E p \in 1..16 : \E m \in Bits : To([v EXCEPT !.n = FlipAt(@, p, m)], "nonce bit")
FlipAd    == \E p \in 1..Len(v.a) : \E m \in Bits : To([v EXCEPT !.a = FlipAt(@, p, m)], "associated data bit")
FlipC     == HasTag(v.x) /\ \E p \in 1..Len(v.x) : \E m \in Bits :
               To([v EXCEPT !.x = FlipAt(@, p, m)], IF p < TagAt(v.x) THEN "ciphertext bit" ELSE "tag bit")
\* two tag bytes, differences that cancel
PairXor   == HasTag(v.x) /\ \E p, q \in TagIdx(v.x) : p < q /\ \E m \in {1, 64, 128, 255} :
               To([v EXCEPT !.x = FlipAt(FlipAt(@, p, m), q, m)], "same xor on two tag bytes")
PairSum   == HasTag(v.x) /\ \E p, q \in TagIdx(v.x) : p # q /\
               To([v EXCEPT !.x = [@ EXCEPT ![p] = (@ + 1) % 256, ![q] = (@ + 255) % 256]], "plus and minus one")
PairSwap  == HasTag(v.x) /\ \E p, q \in TagIdx(v.x) : p < q /\
               To([v EXCEPT !.x = [@ EXCEPT ![p] = v.x[q], ![q] = v.x[p]]], "swapped tag bytes")
\* differences that cancel between 4 and 8 byte words
WordXor   == HasTag(v.x) /\ \E w \in {4, 8} : \E m \in {1, 128, 255} : \E b \in 0..3 :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : IF p % w = b THEN z ^^ m ELSE z)], "same xor in every word")
\* only some tag bytes right
KeepFirst == HasTag(v.x) /\ \E w \in 0..15 :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : IF p < w THEN z ELSE 255 - z)], "first tag bytes right")
KeepLast  == HasTag(v.x) /\ \E w \in 1..15 :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : IF p >= w THEN z ELSE 255 - z)], "last tag bytes right")
KeepOne   == HasTag(v.x) /\ \E w \in 0..15 :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : IF p = w THEN z ELSE 255 - z)], "one tag byte right")
KeepMod   == HasTag(v.x) /\ \E w \in {2, 4, 8} : \E b \in 0..(w - 1) :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : IF p % w = b THEN z ELSE z ^^ 90)], "every other tag byte right")
KeepBits  == HasTag(v.x) /\ \E m \in {1, 2, 4, 8, 16, 32, 64, 128, 15, 240, 127, 254, 85, 170} :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : z ^^ m)], "same bits of all tag bytes")
RotTag    == HasTag(v.x) /\ \E w \in 1..15 :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : v.x[TagAt(v.x) + ((p + w) % 16)])], "rotated tag")
RevTag    == HasTag(v.x) /\ \E w \in {4, 8, 16} :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : v.x[TagAt(v.x) + (p \div w) * w + (w - 1 - (p % w))])], "byte order of the tag")
ConstTag  == HasTag(v.x) /\ \E z0 \in {0, 1, 127, 128, 255} :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : z0)], "constant tag")
SelfTag   == HasTag(v.x) /\ \E s \in {v.k, v.n} :
               To([v EXCEPT !.x = Map16(@, LAMBDA p, z : s[p + 1])], "key or nonce as tag")
\* lengths and boundaries
Truncate  == \E w \in 1..Len(v.x) : w <= 40 /\ To([v EXCEPT !.x = SubSeq(@, 1, Len(@) - w)], "truncated")
Behead    == \E w \in 1..Len(v.x) : w <= 40 /\ To([v EXCEPT !.x = SubSeq(@, w + 1, Len(@))], "first bytes missing")
DropInner == HasTag(v.x) /\ \E w \in 1..(Len(v.x) - 16) : w <= 40 /\
               To([v EXCEPT !.x = SubSeq(@, 1, Len(@) - 16 - w) \o SubSeq(@, Len(@) - 15, Len(@))], "ciphertext cut before the tag")
Ext(z, w) == [p \in 1..w |-> IF p = 1 THEN z ELSE 0]
Append1   == \E z \in {0, 128, 255} : \E w \in {1, 8, 16, 18} : To([v EXCEPT !.x = @ \o Ext(z, w)], "bytes behind the tag")
Insert    == HasTag(v.x) /\ \E z \in {0, 128, 255} : \E w \in 1..18 :
               To([v EXCEPT !.x = SubSeq(@, 1, Len(@) - 16) \o Ext(z, w) \o SubSeq(@, Len(@) - 15, Len(@))], "bytes before the tag")
Prepend   == \E z \in {0, 128} : \E w \in {1, 8, 18} : To([v EXCEPT !.x = Ext(z, w) \o @], "bytes in front")
AdGrow    == \E z \in {0, 128, 255} : \E w \in 1..18 : To([v EXCEPT !.a = @ \o Ext(z, w)], "associated data extended")
AdPre     == \E z \in {0, 128} : \E w \in {1, 8, 18} : To([v EXCEPT !.a = Ext(z, w) \o @], "associated data prefixed")
AdCut     == \E w \in 1..Len(v.a) : w <= 40 /\ To([v EXCEPT !.a = SubSeq(@, 1, Len(@) - w)], "associated data cut")
AdDrop    == Len(v.a) > 0 /\ To([v EXCEPT !.a = <<>>], "associated data dropped")
MoveAC    == \E w \in 1..Len(v.a) : w <= 40 /\ To([v EXCEPT !.a = SubSeq(@, 1, Len(@) - w), !.x = SubSeq(v.a, Len(v.a) - w + 1, Len(v.a)) \o @], "moved from associated data to ciphertext")
MoveCA    == HasTag(v.x) /\ \E w \in 1..(Len(v.x) - 16) : w <= 40 /\
               To([v EXCEPT !.a = @ \o SubSeq(v.x, 1, w), !.x = SubSeq(@, w + 1, Len(@))], "moved from ciphertext to associated data")
SwapAC    == HasTag(v.x) /\ To([v EXCEPT !.a = SubSeq(v.x, 1, Len(v.x) - 16), !.x = v.a \o SubSeq(@, Len(@) - 15, Len(@))], "associated data and ciphertext exchanged")
SwapKN    == To([v EXCEPT !.k = v.n, !.n = v.k], "key and nonce exchanged")
SwapBlk   == HasTag(v.x) /\ \E b, c \in 0..2 : b < c /\ (c + 1) * R.rate <= Len(v.x) - 16 /\
               To([v EXCEPT !.x = [p \in 1..Len(@) |->
                    LET q == (p - 1) \div R.rate IN
                    IF q = b THEN v.x[p + (c - b) * R.rate] ELSE IF q = c THEN v.x[p - (c - b) * R.rate] ELSE v.x[p]]], "ciphertext blocks exchanged")
SwapAdBlk == \E b, c \in 0..2 : b < c /\ (c + 1) * R.rate <= Len(v.a) /\
               To([v EXCEPT !.a = [p \in 1..Len(@) |->
                    LET q == (p - 1) \div R.rate IN
                    IF q = b THEN v.a[p + (c - b) * R.rate] ELSE IF q = c THEN v.a[p - (c - b) * R.rate] ELSE v.a[p]]], "associated data blocks exchanged")
\* parts of another authentic record of the same instance
Splice    == \E o \in 1..Len(Recs) : o # r /\ Recs[o].alg = R.alg /\
               \/ To([v EXCEPT !.k = Recs[o].k], "key of another record")
               \/ To([v EXCEPT !.n = Recs[o].n], "nonce of another record")
               \/ To([v EXCEPT !.a = Recs[o].a], "associated data of another record")
               \/ To([v EXCEPT !.x = Recs[o].x], "ciphertext of another record")
               \/ HasTag(v.x) /\ To([v EXCEPT !.x = SubSeq(@, 1, Len(@) - 16) \o SubSeq(Recs[o].x, Len(Recs[o].x) - 15, Len(Recs[o].x))], "tag of another record")

FInit == r \in 1..Len(Recs) /\ v = [k |-> Recs[r].k, n |-> Recs[r].n, a |-> Recs[r].a, x |-> Recs[r].x] /\ d = 0 /\ how = <<>>
FNext == /\ d < Depth /\ d' = d + 1 /\ UNCHANGED r
         /\ \/ FlipKey \/ FlipNonce \/ FlipAd \/ FlipC
            \/ ~R.big /\ \/ PairXor \/ PairSum \/ PairSwap \/ WordXor \/ KeepFirst \/ KeepLast \/ KeepOne \/ KeepMod \/ KeepBits
                         \/ RotTag \/ RevTag \/ ConstTag \/ SelfTag
                         \/ Truncate \/ Behead \/ DropInner \/ Append1 \/ Insert \/ Prepend \/ AdGrow \/ AdPre \/ AdCut \/ AdDrop
                         \/ MoveAC \/ MoveCA \/ SwapAC \/ SwapKN \/ SwapBlk \/ SwapAdBlk \/ Splice
Emit == (d > 0 /\ v # Auth) => PrintT("FORGE " \o ToJson(<< r, how, v.k, v.n, v.a, v.x >>))
View == << r, v >>
================================================================================

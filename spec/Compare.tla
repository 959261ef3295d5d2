--------------------------------- MODULE Compare --------------------------------
(***************************************************************************)
(* Ways of comparing two tags.  A comparison reads the tags as words, maps   *)
(* each pair of words to a difference, folds the differences, and tests the  *)
(* result; most combinations are wrong.  Others stop early, read strings,    *)
(* or accept special tags.  The trace file holds pairs of a genuine and a    *)
(* presented (different) tag, as the plan of C03 contains them: for every    *)
(* wrong comparison there must be a pair that it accepts, and the right ones *)
(* accept none of them.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.VERIF_TRACE))
Pairs == TLCGet(1)                                       \* [g |-> genuine, p |-> presented, k |-> key, n |-> nonce]

Word(t, w, j) == SubSeq(t, (j - 1) * w + 1, j * w)        \* bytes of the j-th word, least significant first
RECURSIVE Carry(_, _, _, _)
\* byte sequences of one length as numbers: x + s * y modulo
Carry(x, y, s, c) == IF x = << >> THEN << >>
                     ELSE LET v == Head(x) + s * Head(y) + c IN << v % 256 >> \o Carry(Tail(x), Tail(y), s, v \div 256)
Add(x, y) == Carry(x, y, 1, 0)
Sub(x, y) == Carry(x, y, -1, 0)
Zip(F(_, _), x, y) == [q \in 1..Len(x) |-> F(x[q], y[q])]
ZXor(x, y) == Zip(LAMBDA u, z : u ^^ z, x, y)
ZOr(x, y) == Zip(LAMBDA u, z : u | z, x, y)
ZAnd(x, y) == Zip(LAMBDA u, z : u & z, x, y)
Zero(w) == [q \in 1..w |-> 0]
IsZero(x) == \A q \in 1..Len(x) : x[q] = 0
\* difference of words: xor, subtraction, square of the subtraction (low byte only)
Diff(d, g, p) == CASE d = "xor" -> ZXor(g, p) [] d = "sub" -> Sub(g, p)
                   [] d = "square" -> << ((g[1] - p[1]) * (g[1] - p[1])) % 256 >>
                   [] d = "shifted" -> << (g[1] ^^ p[1]) \div 2 >>          \* the low bit of each byte is lost
                   [] d = "ascii" -> << (g[1] ^^ p[1]) & 127 >>
Step(f, acc, x) == CASE f = "or" -> ZOr(acc, x) [] f = "xor" -> ZXor(acc, x) [] f = "sum" -> Add(acc, x) [] f = "last" -> x [] f = "and" -> ZAnd(acc, x)
RECURSIVE Fold(_, _, _, _, _, _)
Fold(c, g, p, j, n, acc) == IF j > n THEN acc ELSE Fold(c, g, p, j + 1, n, Step(c.f, acc, Diff(c.d, Word(g, c.w, j), Word(p, c.w, j))))
Equal(t, r) == CASE t = "all" -> IsZero(r)
                 [] t = "low" -> r[1] = 0
                 [] t = "lowhalf" -> IsZero(SubSeq(r, 1, Len(r) \div 2))
                 [] t = "highhalf" -> IsZero(SubSeq(r, Len(r) \div 2 + 1, Len(r)))
                 [] t = "positive" -> IsZero(r) \/ r[Len(r)] >= 128          \* signed: only positive results are differences
                 [] t = "negative" -> IsZero(r) \/ r[Len(r)] < 128
                 [] t = "odd" -> r[1] % 2 = 0
FoldAccepts(c, g, p) ==
  LET acc0 == IF c.f = "and" THEN [q \in 1..c.w |-> 255] ELSE Zero(c.w)
  IN Equal(c.t, Fold(c, g, p, c.from, c.to, acc0))
Folds == { [kind |-> "fold", w |-> w, d |-> d, f |-> f, t |-> t, from |-> 1, to |-> 16 \div w] :
           w \in {1, 2, 4, 8}, d \in {"xor", "sub"}, f \in {"or", "xor", "sum", "last", "and"}, t \in {"all", "lowhalf", "highhalf", "low", "positive", "negative", "odd"} }
         \cup { [kind |-> "fold", w |-> 1, d |-> d, f |-> f, t |-> "all", from |-> 1, to |-> 16] : d \in {"square", "shifted", "ascii"}, f \in {"or", "sum"} }
         \* a part of the words only
         \cup { [kind |-> "fold", w |-> 1, d |-> "xor", f |-> "or", t |-> "all", from |-> b, to |-> e] : b \in {1}, e \in 0..15 }
         \cup { [kind |-> "fold", w |-> 1, d |-> "xor", f |-> "or", t |-> "all", from |-> b, to |-> e] : b \in 2..16, e \in {16} }
         \cup { [kind |-> "fold", w |-> w, d |-> "xor", f |-> "or", t |-> "all", from |-> b, to |-> b] : w \in {4, 8}, b \in 1..2 }
\* halves of words of one byte are the byte
Sensible(c) == c.w > 1 \/ c.t \notin {"lowhalf", "highhalf", "low"}
FirstDiff(g, p) == CHOOSE q \in 1..16 : g[q] # p[q] /\ \A z \in 1..(q - 1) : g[z] = p[z]
Others == {"string", "less", "greater", "skip0", "skip5", "skip10", "skip15", "even", "odd", "zerotag", "onestag", "keytag", "noncetag", "anyorder", "reversed", "wordorder", "nibble", "count"}
OtherAccepts(m, pr) ==
  LET g == pr.g p == pr.p IN
  CASE m = "string" -> \E q \in 1..16 : g[q] = 0 /\ \A z \in 1..q : g[z] = p[z]
    [] m = "less" -> p[FirstDiff(g, p)] < g[FirstDiff(g, p)]
    [] m = "greater" -> p[FirstDiff(g, p)] > g[FirstDiff(g, p)]
    [] m = "skip0" -> \A q \in 1..16 : q # 1 => g[q] = p[q]
    [] m = "skip5" -> \A q \in 1..16 : q # 6 => g[q] = p[q]
    [] m = "skip10" -> \A q \in 1..16 : q # 11 => g[q] = p[q]
    [] m = "skip15" -> \A q \in 1..16 : q # 16 => g[q] = p[q]
    [] m = "even" -> \A q \in 1..16 : q % 2 = 1 => g[q] = p[q]
    [] m = "odd" -> \A q \in 1..16 : q % 2 = 0 => g[q] = p[q]
    [] m = "zerotag" -> IsZero(p)
    [] m = "onestag" -> \A q \in 1..16 : p[q] = 255
    [] m = "keytag" -> p = pr.k
    [] m = "noncetag" -> p = pr.n
    [] m = "anyorder" -> \A b \in {g[q] : q \in 1..16} : Cardinality({q \in 1..16 : g[q] = b}) = Cardinality({q \in 1..16 : p[q] = b})
    [] m = "reversed" -> \A q \in 1..16 : g[q] = p[17 - q]
    [] m = "wordorder" -> \A q \in 1..16 : g[q] = p[((q - 1) \div 4) * 4 + 4 - ((q - 1) % 4)]
    [] m = "nibble" -> \A q \in 1..16 : g[q] % 16 = p[q] % 16
    [] m = "count" -> Cardinality({q \in 1..16 : g[q] = p[q]}) >= 15
All == {c \in Folds : Sensible(c)} \cup {[kind |-> m, w |-> 0, d |-> "", f |-> "", t |-> "", from |-> 0, to |-> 0] : m \in Others}
Accepts(c, pr) == IF c.kind = "fold" THEN FoldAccepts(c, pr.g, pr.p) ELSE OtherAccepts(c.kind, pr)
Right(c) == c.kind = "fold" /\ c.d \in {"xor", "sub"} /\ c.f = "or" /\ c.t = "all" /\ c.from = 1 /\ c.to * c.w = 16

VARIABLES c, done
vars == << c, done >>
Init == c \in All /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Found == \E q \in 1..Len(Pairs) : Accepts(c, Pairs[q])
Genuine == \A q \in 1..Len(Pairs) : Pairs[q].g # Pairs[q].p
\* right comparisons accept no forged tag; each wrong one accepts some
Report == done => IF Right(c) THEN (Found => Assert(FALSE, << "right comparison accused", c >>))
                  ELSE IF Found THEN PrintT(<< "CAUGHT", c.kind, c >>) ELSE PrintT("MISSED " \o ToString(c))
ASSUME Genuine
================================================================================

--------------------------------- MODULE Framing ---------------------------------
(***************************************************************************)
(* How associated data and ciphertext become the sequence of blocks that is *)
(* authenticated.  The ideal rule pads each part with 0x80 0..0 to full      *)
(* blocks (also when it is empty or already full) and separates the parts.  *)
(* The other rules are framings that look plausible and are ambiguous.      *)
(* An adversary edits an input in ways that keep the bytes, their split, or *)
(* their padding similar.  Under the ideal rule no edit keeps the framed    *)
(* blocks; under every other rule some edit does.  Such an edit is a pair   *)
(* of inputs that must not share a tag: the pairs are replayed into the     *)
(* code under test.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS R, Lens, ShortLens
VARIABLES rule, x, edit
vars == << rule, x, edit >>

Rules == {"ideal", "nosep", "zeropad", "skipfull", "concat", "skipempty", "cuttail", "stripzeros", "prepadded",
          "unordered", "symmetric", "firstblocks", "firstcblocks", "lastblocks", "len8", "sepnonempty", "overlap", "wholeblocks"}
G == 7                                     \* any byte
Zeros(n) == [i \in 1..n |-> 0]
Gen(n) == [i \in 1..n |-> G]
Last(s) == s[Len(s)]
Min(p, q) == IF p < q THEN p ELSE q
RECURSIVE Strip(_)
Strip(s) == IF s = << >> \/ Last(s) # 0 THEN s ELSE Strip(SubSeq(s, 1, Len(s) - 1))
Full(s) == Len(s) % R = 0
Pad(s) == s \o << 128 >> \o Zeros(R - 1 - (Len(s) % R))
ZPad(s) == IF Full(s) /\ s # << >> THEN s ELSE s \o Zeros(R - (Len(s) % R))
SkipPad(s) == IF Full(s) /\ s # << >> THEN s ELSE Pad(s)
Blocks(s) == [i \in 1..(Len(s) \div R) |-> SubSeq(s, (i - 1) * R + 1, i * R)]
Cut(s) == SubSeq(s, 1, (Len(s) \div R) * R)
Sep == << << "sep" >> >>
\* a tail that already ends like padding is taken for padding
PrePad(s) == IF Full(s) /\ s # << >> /\ (Last(s) = 128 \/ (Last(s) = 0 /\ Strip(s) # << >> /\ Last(Strip(s)) = 128)) THEN s ELSE Pad(s)

Frame(r, a, c) ==
  CASE r = "ideal"       -> Blocks(Pad(a)) \o Sep \o Blocks(Pad(c))
    [] r = "nosep"       -> Blocks(Pad(a)) \o Blocks(Pad(c))
    [] r = "zeropad"     -> Blocks(ZPad(a)) \o Sep \o Blocks(ZPad(c))
    [] r = "skipfull"    -> Blocks(SkipPad(a)) \o Sep \o Blocks(SkipPad(c))
    [] r = "concat"      -> Blocks(Pad(a \o c))
    [] r = "skipempty"   -> (IF a = << >> THEN << >> ELSE Blocks(Pad(a))) \o Blocks(Pad(c))
    [] r = "cuttail"     -> Blocks(Cut(a)) \o Sep \o Blocks(Pad(c))
    [] r = "stripzeros"  -> Blocks(Pad(Strip(a))) \o Sep \o Blocks(Pad(Strip(c)))
    [] r = "prepadded"   -> Blocks(PrePad(a)) \o Sep \o Blocks(PrePad(c))
    [] r = "unordered"   -> LET b == Blocks(Pad(a)) \o Sep \o Blocks(Pad(c)) IN
                            [v \in {b[i] : i \in 1..Len(b)} |-> Cardinality({i \in 1..Len(b) : b[i] = v})]
    [] r = "symmetric"   -> {Pad(a), Pad(c)}
    [] r = "firstblocks" -> << SubSeq(Pad(a), 1, Min(2 * R, Len(Pad(a)))), Len(a), Pad(c) >>
    [] r = "firstcblocks" -> << Pad(a), SubSeq(Pad(c), 1, Min(2 * R, Len(Pad(c)))), Len(c) >>
    [] r = "lastblocks" -> << Blocks(Pad(a))[Len(Pad(a)) \div R], Len(a), Blocks(Pad(c))[Len(Pad(c)) \div R], Len(c) >>
    [] r = "len8"        -> Blocks(Pad(SubSeq(a, 1, Len(a) % 16))) \o Sep \o Blocks(Pad(c))
    [] r = "sepnonempty" -> Blocks(Pad(a)) \o (IF c = << >> THEN << >> ELSE Sep \o Blocks(Pad(c)))  
    [] r = "overlap"     -> Blocks(ZPad(a \o << 128 >> \o c \o << 128 >>))
    [] r = "wholeblocks" -> Blocks(Cut(a)) \o Sep \o Blocks(Cut(c)) \o << << Len(a) % R >> >>

In(a, c) == [a |-> a, c |-> c]
Suffixes == {<< >>, << 0 >>, << 128 >>, << 128, 0 >>, << 0, 0 >>}
Inputs ==
  {In(Gen(n), Gen(m)) : n \in Lens, m \in Lens}
  \cup {In(Gen(n) \o s, Gen(m)) : n \in ShortLens, m \in {0, 2, R}, s \in Suffixes}
  \cup {In(Gen(n), Pad(Gen(u)) \o Gen(v)) : n \in {0, 1, R}, u \in {0, 1, R - 1, R, R + 1}, v \in {0, 1, R, R + 3}}
  \cup {In(Gen(n), Gen(m) \o s) : n \in {0, 2, R}, m \in ShortLens, s \in Suffixes}

\* the first 128 and the end of its block, if only zeros follow in that block; 0 if there is none
First80(s) == LET P == {p \in 1..Len(s) : s[p] = 128} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : \A q \in P : p <= q
BlockEnd(p) == ((p + R - 1) \div R) * R
Inner80(s) == LET p == First80(s) IN p # 0 /\ BlockEnd(p) <= Len(s) /\ \A q \in (p + 1)..BlockEnd(p) : s[q] = 0
TailK(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
HeadK(s, k) == SubSeq(s, 1, k)
DropT(s, k) == SubSeq(s, 1, Len(s) - k)
DropH(s, k) == SubSeq(s, k + 1, Len(s))
Moves == {1, 2, R - 1, R, R + 1, 2 * R}
SwapBlocks(s) == SubSeq(s, R + 1, 2 * R) \o SubSeq(s, 1, R) \o SubSeq(s, 2 * R + 1, Len(s))
Mark(s) == [i \in 1..Len(s) |-> IF i = Len(s) THEN 9 ELSE s[i]]
Edits ==
  {<< "toC", k >> : k \in Moves} \cup {<< "toA", k >> : k \in Moves}
  \cup {<< e, 0 >> : e \in {"allC", "allA", "a0", "a80", "apad", "azblock", "c0", "c80", "cpad", "czblock", "adrop", "cdrop", "astrip", "cstrip",
                            "adropb", "cdropb", "swap", "aperm", "cperm", "noA", "noC", "inlineA", "inlineC", "alast", "clast", "adup", "cdup", "amid", "cmid", "absorb", "split80"}}
Edit(e, i) ==
  LET a == i.a  c == i.c  k == e[2] IN
  CASE e[1] = "toC" -> IF Len(a) < k THEN i ELSE In(DropT(a, k), TailK(a, k) \o c)
    [] e[1] = "toA" -> IF Len(c) < k THEN i ELSE In(a \o HeadK(c, k), DropH(c, k))
    [] e[1] = "allC" -> In(<< >>, a \o c)
    [] e[1] = "allA" -> In(a \o c, << >>)
    [] e[1] = "a0" -> In(a \o << 0 >>, c)
    [] e[1] = "a80" -> In(a \o << 128 >>, c)
    [] e[1] = "apad" -> In(Pad(a), c)
    [] e[1] = "azblock" -> In(a \o Zeros(R), c)
    [] e[1] = "c0" -> In(a, c \o << 0 >>)
    [] e[1] = "c80" -> In(a, c \o << 128 >>)
    [] e[1] = "cpad" -> In(a, Pad(c))
    [] e[1] = "czblock" -> In(a, c \o Zeros(R))
    [] e[1] = "adrop" -> IF a = << >> THEN i ELSE In(DropT(a, 1), c)
    [] e[1] = "cdrop" -> IF c = << >> THEN i ELSE In(a, DropT(c, 1))
    [] e[1] = "astrip" -> In(Strip(a), c)
    [] e[1] = "cstrip" -> In(a, Strip(c))
    [] e[1] = "adropb" -> IF Len(a) < R THEN i ELSE In(DropT(a, R), c)
    [] e[1] = "cdropb" -> IF Len(c) < R THEN i ELSE In(a, DropT(c, R))
    [] e[1] = "swap" -> In(c, a)
    [] e[1] = "aperm" -> IF Len(a) < 2 * R THEN i ELSE LET m == Mark(HeadK(a, R)) \o DropH(a, R) IN In(SwapBlocks(m), c)
    [] e[1] = "cperm" -> IF Len(c) < 2 * R THEN i ELSE LET m == Mark(HeadK(c, R)) \o DropH(c, R) IN In(a, SwapBlocks(m))
    [] e[1] = "noA" -> In(<< >>, c)
    [] e[1] = "noC" -> In(a, << >>)
    [] e[1] = "inlineA" -> In(Pad(a) \o c, << >>)
    [] e[1] = "inlineC" -> In(<< >>, Pad(a) \o c)
    [] e[1] = "alast" -> IF a = << >> THEN i ELSE In(Mark(a), c)
    [] e[1] = "clast" -> IF c = << >> THEN i ELSE In(a, Mark(c))
    [] e[1] = "adup" -> IF Len(a) < R THEN i ELSE In(a \o TailK(a, R), c)
    [] e[1] = "cdup" -> IF Len(c) < R THEN i ELSE In(a, c \o TailK(c, R))
    [] e[1] = "absorb" -> IF ~Inner80(c) THEN i ELSE In(Pad(a) \o HeadK(c, First80(c) - 1), DropH(c, BlockEnd(First80(c))))
    [] e[1] = "split80" -> IF ~Inner80(c) THEN i ELSE In(a \o HeadK(c, First80(c) - 1), DropH(c, BlockEnd(First80(c))))
    [] e[1] = "cmid" -> IF Len(c) < 2 * R + 2 THEN i ELSE In(a, [c EXCEPT ![2 * R + 1] = 9])
    [] e[1] = "amid" -> IF Len(a) < 2 * R + 2 THEN i ELSE In([a EXCEPT ![2 * R + 1] = 9], c)
\* the permuting edits compare with the marked original
From(e, i) == CASE e[1] = "aperm" /\ Len(i.a) >= 2 * R -> In(Mark(HeadK(i.a, R)) \o DropH(i.a, R), i.c)
                [] e[1] = "cperm" /\ Len(i.c) >= 2 * R -> In(i.a, Mark(HeadK(i.c, R)) \o DropH(i.c, R))
                [] OTHER -> i

Init == rule \in Rules /\ x \in Inputs /\ edit = << "none", 0 >>
Next == edit[1] = "none" /\ edit' \in Edits /\ UNCHANGED << rule, x >>
Collides == LET f == From(edit, x)  y == Edit(edit, x) IN f # y /\ Frame(rule, f.a, f.c) = Frame(rule, y.a, y.c)
Unambiguous == rule = "ideal" /\ edit[1] # "none" => ~Collides
Report == (edit[1] # "none" /\ rule # "ideal" /\ Collides) =>
            LET f == From(edit, x) y == Edit(edit, x) IN PrintT("PAIR " \o ToJson(<< rule, edit[1], f.a, f.c, y.a, y.c >>))
================================================================================

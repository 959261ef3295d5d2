-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Word arithmetic shared by the permutation modules.                      *)
(*                                                                         *)
(* TLC's integers are 32 bit, so every word is kept as 16-bit CELLS.  A    *)
(* permutation state is a flat tuple of cells (20 for Ascon, 25 for        *)
(* Keccak-p[400]); the byte <-> cell correspondence is a property of the   *)
(* family ("A" big-endian 64-bit lanes, "K" little-endian 16-bit lanes).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

Byte == 0..255
Cell16 == 0..65535

\* ---- bytes <-> cells ----------------------------------------------------
\* big: bytes (b0,b1) of a cell are (high,low); otherwise (low,high)
MkCell(big, b0, b1) == IF big THEN b0 * 256 + b1 ELSE b1 * 256 + b0
CellB0(big, c) == IF big THEN c \div 256 ELSE c % 256
CellB1(big, c) == IF big THEN c % 256 ELSE c \div 256

\* byte number j (0-based) of a cell tuple
ByteOf(big, st, j) == IF j % 2 = 0 THEN CellB0(big, st[(j \div 2) + 1])
                                   ELSE CellB1(big, st[(j \div 2) + 1])

\* first n bytes of a cell tuple (n <= 2 * Len(st))
BytesOf(big, st, n) == TLCEval([j \in 1..n |-> ByteOf(big, st, j - 1)])

\* cell tuple from an even number of bytes
CellsOf(big, bs) == TLCEval([c \in 1..(Len(bs) \div 2) |->
                              MkCell(big, bs[2*c - 1], bs[2*c])])

\* XOR the cells xs into the front of st
XorFront(st, xs) == TLCEval([c \in 1..Len(st) |->
                       IF c <= Len(xs) THEN st[c] ^^ xs[c] ELSE st[c]])

\* replace the front of st by the cells xs
SetFront(st, xs) == TLCEval([c \in 1..Len(st) |->
                       IF c <= Len(xs) THEN xs[c] ELSE st[c]])

XorSeq(a, b) == TLCEval([j \in 1..Len(a) |-> a[j] ^^ b[j]])

Zeros(n) == [j \in 1..n |-> 0]

\* ---- 64-bit lanes as four cells, most significant first -------------------
X64(a, b)     == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
X64x3(a, b, c) == << a[1] ^^ (b[1] ^^ c[1]), a[2] ^^ (b[2] ^^ c[2]),
                     a[3] ^^ (b[3] ^^ c[3]), a[4] ^^ (b[4] ^^ c[4]) >>
\* (NOT a) AND b
NA64(a, b) == << (65535 - a[1]) & b[1], (65535 - a[2]) & b[2],
                 (65535 - a[3]) & b[3], (65535 - a[4]) & b[4] >>
Not64(a) == << 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>

Pow2 == << 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768 >>

\* rotate a 64-bit lane right by 16*q + r, 0 <= q < 4, 1 <= r <= 15
RotQ(a, q) == CASE q = 0 -> a
                [] q = 1 -> << a[4], a[1], a[2], a[3] >>
                [] q = 2 -> << a[3], a[4], a[1], a[2] >>
                [] q = 3 -> << a[2], a[3], a[4], a[1] >>
RotR(a, r) == << (a[1] \div Pow2[r]) + (a[4] % Pow2[r]) * Pow2[16 - r],
                 (a[2] \div Pow2[r]) + (a[1] % Pow2[r]) * Pow2[16 - r],
                 (a[3] \div Pow2[r]) + (a[2] % Pow2[r]) * Pow2[16 - r],
                 (a[4] \div Pow2[r]) + (a[3] % Pow2[r]) * Pow2[16 - r] >>
Ror64(a, n) == RotR(RotQ(a, n \div 16), n % 16)

\* rotate a single 16-bit cell left by n, 0 <= n <= 15
Rol16(v, n) == IF n = 0 THEN v
               ELSE (v % Pow2[16 - n]) * Pow2[n] + (v \div Pow2[16 - n])
=============================================================================

-------------------------------- MODULE Ascon --------------------------------
(***************************************************************************)
(* The Ascon permutation p^a (a <= 12 rounds: the LAST a of the 12 round   *)
(* constants) on a state of 20 cells (5 big-endian 64-bit lanes).          *)
(***************************************************************************)
EXTENDS Words

AsconRC == << 240, 225, 210, 195, 180, 165, 150, 135, 120, 105, 90, 75 >>

\* one round: constant addition, 5-bit S-box on 64 columns, linear layer
AsconRound(s, rc) ==
  LET a0 == << s[1],  s[2],  s[3],  s[4]  >>
      a1 == << s[5],  s[6],  s[7],  s[8]  >>
      a2 == << s[9],  s[10], s[11], s[12] ^^ rc >>
      a3 == << s[13], s[14], s[15], s[16] >>
      a4 == << s[17], s[18], s[19], s[20] >>
      x0 == X64(a0, a4)
      x1 == a1
      x2 == X64(a2, a1)
      x3 == a3
      x4 == X64(a4, a3)
      t0 == X64(x0, NA64(x1, x2))
      t1 == X64(x1, NA64(x2, x3))
      t2 == X64(x2, NA64(x3, x4))
      t3 == X64(x3, NA64(x4, x0))
      t4 == X64(x4, NA64(x0, x1))
      y0 == X64(t0, t4)
      y1 == X64(t1, t0)
      y2 == Not64(t2)
      y3 == X64(t3, t2)
      y4 == t4
  IN  X64x3(y0, Ror64(y0, 19), Ror64(y0, 28)) \o
      X64x3(y1, Ror64(y1, 61), Ror64(y1, 39)) \o
      X64x3(y2, Ror64(y2, 1),  Ror64(y2, 6))  \o
      X64x3(y3, Ror64(y3, 10), Ror64(y3, 17)) \o
      X64x3(y4, Ror64(y4, 7),  Ror64(y4, 41))

AsconP(s, a) == FoldLeft(AsconRound, s, SubSeq(AsconRC, 13 - a, 12))
=============================================================================

------------------------------ MODULE Keccak400 ------------------------------
(***************************************************************************)
(* Keccak-p[400, n] (n <= 20: the LAST n rounds) on 25 lanes of 16 bits,   *)
(* lane index x + 5y (0-based), i.e. cell x + 5y + 1.                      *)
(***************************************************************************)
EXTENDS Words

KeccakRC == << 1, 32898, 32906, 32768, 32907, 1, 32897, 32777, 138, 136,
               32777, 10, 32907, 139, 32905, 32771, 32770, 128, 32778, 10 >>

\* rho offsets mod 16, in lane order x + 5y
Rho == << 0, 1, 14, 12, 11,   4, 12, 6, 7, 4,   3, 10, 11, 9, 7,
          9, 13, 15, 5, 8,    2, 2, 13, 8, 14 >>

\* pi: lane (x,y) moves to (y, 2x+3y); PiSrc[d] is the source of destination d
PiSrc == << 1, 7, 13, 19, 25, 4, 10, 11, 17, 23, 2, 8, 14, 20, 21, 5, 6, 12, 18, 24, 3, 9, 15, 16, 22 >>

\* the literal above is what the definition of pi says (checked by MCWords)
PiSrcOK == \A k \in 1..25 : LET x == (PiSrc[k] - 1) % 5
                               y == (PiSrc[k] - 1) \div 5
                           IN  k = y + 5 * ((2 * x + 3 * y) % 5) + 1

Col(s, x) == s[x] ^^ (s[x + 5] ^^ (s[x + 10] ^^ (s[x + 15] ^^ s[x + 20])))

KeccakRound(s, rc) ==
  LET c1 == Col(s, 1) c2 == Col(s, 2) c3 == Col(s, 3) c4 == Col(s, 4) c5 == Col(s, 5)
      d  == << c5 ^^ Rol16(c2, 1), c1 ^^ Rol16(c3, 1), c2 ^^ Rol16(c4, 1),
               c3 ^^ Rol16(c5, 1), c4 ^^ Rol16(c1, 1) >>
      b  == TLCEval([k \in 1..25 |->
               Rol16(s[PiSrc[k]] ^^ d[((PiSrc[k] - 1) % 5) + 1], Rho[PiSrc[k]])])
      Chi(x, y) == b[x + 5*y] ^^ ((65535 - b[(x % 5) + 1 + 5*y]) & b[((x + 1) % 5) + 1 + 5*y])
  IN << Chi(1,0) ^^ rc, Chi(2,0), Chi(3,0), Chi(4,0), Chi(5,0),
        Chi(1,1), Chi(2,1), Chi(3,1), Chi(4,1), Chi(5,1),
        Chi(1,2), Chi(2,2), Chi(3,2), Chi(4,2), Chi(5,2),
        Chi(1,3), Chi(2,3), Chi(3,3), Chi(4,3), Chi(5,3),
        Chi(1,4), Chi(2,4), Chi(3,4), Chi(4,4), Chi(5,4) >>

KeccakP(s, n) == FoldLeft(KeccakRound, s, SubSeq(KeccakRC, 21 - n, 20))
=============================================================================

-------------------------------- MODULE IBM --------------------------------
(* IBM hexadecimal single to IEEE single, on 32-bit words given as two       *)
(* 16-bit halves.  Exact: the 24-bit fraction fits the IEEE significand, so  *)
(* only results below the normal range are rounded (to nearest, ties to      *)
(* even), and those beyond it are infinite.                                 *)
EXTENDS Integers, Sequences

Hi(w) == (w \div 65536) % 65536        \* of a signed 32-bit word
Lo(w) == w % 65536
Word(hi, lo) == (IF hi >= 32768 THEN hi - 65536 ELSE hi) * 65536 + lo

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE NLZ24(_)
NLZ24(f) == IF f >= 8388608 THEN 0 ELSE 1 + NLZ24(f * 2)    \* f # 0, f < 2^24

\* f \div 2^n rounded to nearest, ties to even
RoundShift(f, n) ==
  IF n > 25 THEN 0
  ELSE LET d == Pow2(n) q == f \div d r == f % d IN
       IF n = 0 THEN f
       ELSE IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q

FromIBM(w) ==
  LET s == Hi(w) \div 32768
      e == (Hi(w) \div 256) % 128
      f == (Hi(w) % 256) * 65536 + Lo(w)
  IN IF f = 0 THEN Word(s * 32768, 0)
     ELSE LET z == NLZ24(f)
              m == f * Pow2(z)
              E == 4 * (e - 64) - z + 126
          IN IF E >= 255 THEN Word(s * 32768 + 32640, 0)      \* beyond the largest finite number: infinity
             ELSE IF E >= 1
             THEN Word(s * 32768 + E * 128 + ((m \div 65536) % 128), m % 65536)
             ELSE LET q == RoundShift(m, 1 - E)    \* subnormal (or the smallest normal)
                  IN Word(s * 32768 + q \div 65536, q % 65536)
=============================================================================

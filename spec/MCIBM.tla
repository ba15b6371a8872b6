------------------------------- MODULE MCIBM --------------------------------
(* C21 on small formats: decoding a hexadecimal float by shifting and         *)
(* rounding its fraction (as module IBM does for the real format) is the      *)
(* binary number nearest to it, ties to even, for every word.                 *)
(*   hexadecimal: EB exponent bits (bias 2^(EB-1)), FB fraction bits          *)
(*   binary:      IB exponent bits, FB significand bits with the leading one  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS FB, EB, IB
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
VARIABLES f, e
vars == <<f, e>>
Bias == P2(IB - 1) - 1
HBias == P2(EB - 1)

RECURSIVE NLZ(_)
NLZ(x) == IF x >= P2(FB - 1) THEN 0 ELSE 1 + NLZ(x * 2)
RoundShift(x, n) ==
  LET d == P2(n) q == x \div d r == x % d IN
  IF n = 0 THEN x ELSE IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q

\* value of the hexadecimal word in units of 2^-U
U == 4 * HBias + FB
HexVal == f * P2(4 * e)
\* biased binary exponent of the leading one
E2 == 4 * (e - HBias) - NLZ(f) + Bias - 1
Fits == f = 0 \/ E2 <= P2(IB) - 2
\* the decoded word <<exponent, significand without the leading one>>
Decoded == IF f = 0 THEN 0
           ELSE IF E2 >= 1 THEN E2 * P2(FB - 1) + ((f * P2(NLZ(f))) % P2(FB - 1))
           ELSE IF 1 - E2 > FB + 1 THEN 0 ELSE RoundShift(f * P2(NLZ(f)), 1 - E2)
\* value of a binary word, in units of 2^-V, exact
V == Bias + FB - 2
BinVal(w) == LET E == w \div P2(FB - 1) m == w % P2(FB - 1) IN
             IF E = 0 THEN m ELSE (m + P2(FB - 1)) * P2(E - 1)
\* |decoded - value| <= |other - value| for every other binary word, ties to the even word
Dist(w) == LET d == BinVal(w) * P2(U - V) - HexVal IN IF d < 0 THEN -d ELSE d
Words == 0..(P2(IB + FB - 1) - P2(FB - 1) - 1)
Nearest == Fits => /\ Decoded \in Words \cup {P2(IB + FB - 1) - P2(FB - 1)}
                   /\ LET best == Dist(Decoded) IN
                      \A w \in {Decoded - 1, Decoded + 1} \cap Words :
                        /\ Dist(w) >= best
                        /\ Dist(w) = best => Decoded % 2 = 0
Monotone == Fits /\ f # 0 => \A w \in Words : BinVal(w) < BinVal(w + 1) \/ w + 1 \notin Words
Init == f \in 0..(P2(FB) - 1) /\ e \in 0..(P2(EB) - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
ASSUME U >= V
ASSUME \A w \in Words : w + 1 \in Words => BinVal(w) < BinVal(w + 1)
=============================================================================

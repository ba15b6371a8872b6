------------------------------- MODULE Limbs -------------------------------
(* Natural numbers below 2^64 as four 16-bit limbs, low limb first: TLC's   *)
(* own integers are 32 bits wide.                                           *)
EXTENDS Integers, Sequences

LB == 65536
LZero == <<0, 0, 0, 0>>
LOf(n) == <<n % LB, (n \div LB) % LB, 0, 0>>          \* n a TLC natural
LIsNat(a) == Len(a) = 4 /\ \A k \in 1..4 : a[k] >= 0 /\ a[k] < LB

\* sum; a fifth limb carries the overflow
LAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div LB
      s3 == a[3] + b[3] + s2 \div LB
      s4 == a[4] + b[4] + s3 \div LB
  IN <<s1 % LB, s2 % LB, s3 % LB, s4 % LB, s4 \div LB>>

LPlus(a, b) == SubSeq(LAdd(a, b), 1, 4)
LNoOverflow(a, b) == LAdd(a, b)[5] = 0
LSucc(a) == LPlus(a, <<1, 0, 0, 0>>)

\* product with a TLC natural below 2^15, modulo 2^64
LMulS(a, n) ==
  LET s1 == a[1] * n
      s2 == a[2] * n + s1 \div LB
      s3 == a[3] * n + s2 \div LB
      s4 == a[4] * n + s3 \div LB
  IN <<s1 % LB, s2 % LB, s3 % LB, s4 % LB>>
LByte(a, k) == IF k % 2 = 0 THEN a[k \div 2 + 1] % 256 ELSE a[k \div 2 + 1] \div 256
RECURSIVE LMulB(_, _, _)
LMulB(a, b, k) == IF k > 7 THEN LZero ELSE LPlus(LMulS(b, LByte(a, k)), LMulS(LMulB(a, b, k + 1), 256))
\* product modulo 2^64
LMul(a, b) == LMulB(a, b, 0)

LLt(a, b) == \/ a[4] < b[4]
             \/ a[4] = b[4] /\ a[3] < b[3]
             \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
             \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
LLe(a, b) == a = b \/ LLt(a, b)
LWithin1(a, b) == a = b \/ a = LSucc(b) \/ b = LSucc(a)
=============================================================================

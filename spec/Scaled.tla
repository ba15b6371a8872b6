------------------------------- MODULE Scaled -------------------------------
(* C08: decimal numbers too wide for TLC's integers.  A magnitude is a       *)
(* sequence of base-10000 digits, low first, in units of 1e-8.               *)
EXTENDS Integers, Sequences, FiniteSets

B == 10000
ND == 8                           \* digits kept
Dg(x, k) == IF k \in DOMAIN x THEN x[k] ELSE 0
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)

Wide(x) == [k \in 1..ND |-> Dg(x, k)]
RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, k, c, acc) == IF k > ND THEN acc
  ELSE LET s == a[k] + b[k] + c IN AddC(a, b, k + 1, s \div B, Append(acc, s % B))
Add(a, b) == AddC(a, b, 1, 0, <<>>)
RECURSIVE CmpK(_, _, _)
CmpK(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] # b[k] THEN (IF a[k] < b[k] THEN -1 ELSE 1) ELSE CmpK(a, b, k - 1)
Leq(a, b) == CmpK(a, b, ND) <= 0
RECURSIVE SubC(_, _, _, _, _)
SubC(a, b, k, c, acc) == IF k > ND THEN acc
  ELSE LET s == a[k] - b[k] - c IN SubC(a, b, k + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + B ELSE s))
Diff(a, b) == IF Leq(b, a) THEN SubC(a, b, 1, 0, <<>>) ELSE SubC(b, a, 1, 0, <<>>)
RECURSIVE MulC(_, _, _, _, _)
MulC(a, m, k, c, acc) == IF k > ND THEN acc
  ELSE LET s == a[k] * m + c IN MulC(a, m, k + 1, s \div B, Append(acc, s % B))
Mul(a, m) == MulC(a, m, 1, 0, <<>>)        \* m <= 10000
RECURSIVE DivC(_, _, _, _, _)
DivC(a, m, k, r, acc) == IF k = 0 THEN acc
  ELSE LET s == r * B + a[k] IN DivC(a, m, k - 1, s % m, <<s \div m>> \o acc)
DivS(a, m) == DivC(a, m, ND, 0, <<>>)
IsZero(a) == \A k \in 1..ND : a[k] = 0
Down(a, n) == [k \in 1..ND |-> IF k + n <= ND THEN a[k + n] ELSE 0]
Up(a, n) == [k \in 1..ND |-> IF k > n THEN a[k - n] ELSE 0]

\* the scale words of SEG-Y: a multiplier, or a divisor if negative
Scales == {1, 10, 100, 1000, 10000, -10, -100, -1000, -10000, 0, -1}
Exp10(s) == CASE s \in {0, 1, -1} -> 0 [] s = 10 -> 1 [] s = 100 -> 2 [] s = 1000 -> 3 [] s = 10000 -> 4
              [] s = -10 -> -1 [] s = -100 -> -2 [] s = -1000 -> -3 [] s = -10000 -> -4
\* units of 1e-8 in one unit of the scale: 10^(8 + exponent)
Unit(ex) == Up(Wide(<<P10((8 + ex) % 4)>>), (8 + ex) \div 4)
MaxInt32 == Wide(<<3647, 4748, 21>>)
\* digits of the magnitude of a 32-bit value
Mag(v) == IF v = -2147483647 - 1 THEN Wide(<<3648, 4748, 21>>)
          ELSE LET a == IF v < 0 THEN -v ELSE v IN Wide(<<a % B, (a \div B) % B, a \div (B * B)>>)
\* |v| in units of the scale, as a magnitude in 1e-8
Stands(v, ex) == Up(Mul(Mag(v), P10((8 + ex) % 4)), (8 + ex) \div 4)

\* x = [n: negative, d: digits]
Within(x, v, ex) ==
  LET X == Wide(x.d)
      Y == Stands(v, ex)
      same == IsZero(X) \/ v = 0 \/ (x.n = 1) = (v < 0)
      D == IF same THEN Diff(X, Y) ELSE Add(X, Y)
  IN Leq(Add(D, D), Unit(ex))
ExactAt(x, ex) ==
  LET X == Wide(x.d) n == (8 + ex) \div 4 m == P10((8 + ex) % 4)
      Q == DivS(Down(X, n), m)
  IN /\ \A k \in 1..n : X[k] = 0
     /\ Mul(Q, m) = Down(X, n)
     /\ Leq(Q, MaxInt32)
Exact(x, v, ex) == Wide(x.d) = Stands(v, ex) /\ (v = 0 \/ (x.n = 1) = (v < 0))
\* can one scale hold every one of these values?
OneFits(xs) == \E ex \in -4..4 : \A j \in DOMAIN xs : ExactAt(xs[j], ex)
=============================================================================

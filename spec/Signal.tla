------------------------------- MODULE Signal -------------------------------
(* C18 and C19 on integer samples.                                           *)
EXTENDS Integers, Sequences, FiniteSets

SMin(a, b) == IF a < b THEN a ELSE b
SMax(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumF(_, _)
SumF(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumF(s, k + 1)
Sum(s) == SumF(s, 1)

\* ---- gain control -----------------------------------------------------------
Half(win) == (IF win % 2 = 0 THEN win + 1 ELSE win) \div 2
WLo(j, win) == SMax(1, j - Half(win))
WHi(j, n, win) == SMin(n, j + Half(win))
Window(sig, j, win) == SubSeq(sig, WLo(j, win), WHi(j, Len(sig), win))
Centre(j, win) == j - WLo(j, win)          \* from 0

Num(w) == SMax(1, Cardinality({k \in DOMAIN w : w[k] # 0}))
SumSq(w) == Sum([k \in DOMAIN w |-> w[k] * w[k]])
SumAbs(w) == Sum([k \in DOMAIN w |-> Abs(w[k])])
TriH(w, c) == SMax(1, SMax(c, Len(w) - 1 - c))
TriSq(w, c) == LET h == TriH(w, c) IN
               Sum([k \in DOMAIN w |-> (w[k] * (h - Abs(k - 1 - c))) * (w[k] * (h - Abs(k - 1 - c)))])
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE SortS(_)
SortS(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortS(Tail(s)))

\* q is 100 * (the amplitude the window is normalised by), to the nearest integer
RmsOk(w, q) == q >= 0 /\ (q - 1) * (q - 1) * Num(w) <= SumSq(w) * 10000
                      /\ SumSq(w) * 10000 <= (q + 1) * (q + 1) * Num(w)
TriOk(w, c, q) == LET h2 == TriH(w, c) * TriH(w, c) IN
  q >= 0 /\ (q - 1) * (q - 1) * Num(w) * h2 <= TriSq(w, c) * 10000
         /\ TriSq(w, c) * 10000 <= (q + 1) * (q + 1) * Num(w) * h2
MeanOk(w, q) == Abs(q * Num(w) - 100 * SumAbs(w)) <= Num(w)
Med2(w) == LET s == SortS(w) n == Len(w) IN       \* twice the median
  IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
MedOk(w, q) == Med2(w) = 0 \/ Abs(2 * q - 100 * Med2(w)) <= 2
\* what the library does for windows of even length instead (known finding)
Med2Upper(w) == LET s == SortS(w) n == Len(w) IN s[n \div 2 + 1] + s[SMin(n \div 2 + 2, n)]
MedUpperOk(w, t, q) == /\ Len(w) % 2 = 0
                       /\ IF Med2Upper(w) = 0 THEN q = 100 * t
                          ELSE Abs(2 * q - 100 * Med2Upper(w)) <= 2

\* ---- tapering -----------------------------------------------------------------
FirstNz(sig) == IF \A k \in DOMAIN sig : sig[k] = 0 THEN Len(sig) + 1
                ELSE CHOOSE k \in DOMAIN sig : sig[k] # 0 /\ \A i \in 1..(k - 1) : sig[i] = 0
Tapered(sig, lt, rt, W(_, _)) ==
  LET z == FirstNz(sig)
      m == Len(sig) - z + 1
      L == SMin(lt, m)
      R == SMin(rt, m)
  IN [k \in DOMAIN sig |->
        LET p == k - z + 1        \* position in the unmuted part, from 1
            d == m - p + 1        \* position from the end, from 1
        IN IF p < 1 THEN sig[k]
           ELSE sig[k] * (IF p <= L THEN W(p, L) ELSE 1) * (IF d <= R THEN W(d, R) ELSE 1)]
=============================================================================

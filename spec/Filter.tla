------------------------------- MODULE Filter -------------------------------
(* C28: Butterworth filters and what filtering a trace with them means, in    *)
(* fixed-point arithmetic (millionths).  Corners are angles d in degrees: a   *)
(* corner at frequency f of sampling rate fs is d = 180 f / fs.               *)
EXTENDS Integers, Sequences, TLC

One == 1000000
AbsF(x) == IF x < 0 THEN -x ELSE x
MaxF(a, b) == IF a > b THEN a ELSE b
\* quotients rounded toward zero whatever the signs
Quo(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* product of two millionths; halves of three digits keep it within 32 bits
MulPos(a, b) == LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000
                IN ah * bh + (ah * bl + al * bh + (al * bl) \div 1000 + 500) \div 1000
Mul(a, b) == IF (a >= 0) = (b >= 0) THEN MulPos(AbsF(a), AbsF(b)) ELSE -MulPos(AbsF(a), AbsF(b))
RECURSIVE DivPos(_, _, _)
DivPos(a, b, k) == IF k = 0 THEN a \div b ELSE (a \div b) * 10^k + DivPos((a % b) * 10, b, k - 1)
\* a / b, both of one scale, in millionths (b below 2^31/10)
Div(a, b) == IF (a >= 0) = (b >= 0) THEN DivPos(AbsF(a), AbsF(b), 6) ELSE -DivPos(AbsF(a), AbsF(b), 6)

\* ---- polynomials in z^-1, ascending --------------------------------------------
At(p, k) == IF k \in DOMAIN p THEN p[k] ELSE 0
PAdd(p, q) == [k \in 1..MaxF(Len(p), Len(q)) |-> At(p, k) + At(q, k)]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Total(s) == Sum(s, Len(s))
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                 Total([j \in 1..k |-> IF j <= Len(p) /\ k - j + 1 <= Len(q) THEN Mul(p[j], q[k - j + 1]) ELSE 0])]
PScale(p, c) == [k \in DOMAIN p |-> Mul(p[k], c)]
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<One>> ELSE PMul(p, PPow(p, n - 1))
Plus1 == <<One, One>>
Minus1 == <<One, -One>>

\* ---- the filters ----------------------------------------------------------------
\* denominators of the analogue prototypes of order 1 to 4
Proto == << <<1000000, 1000000>>,
            <<1000000, 1414214, 1000000>>,
            <<1000000, 2000000, 2000000, 1000000>>,
            <<1000000, 2613126, 3414214, 2613126, 1000000>> >>
TanTable == <<
17455, 34921, 52408, 69927, 87489, 105104, 122785, 140541, 158384, 176327,
194380, 212557, 230868, 249328, 267949, 286745, 305731, 324920, 344328, 363970,
383864, 404026, 424475, 445229, 466308, 487733, 509525, 531709, 554309, 577350,
600861, 624869, 649408, 674509, 700208, 726543, 753554, 781286, 809784, 839100,
869287, 900404, 932515, 965689, 1000000, 1035530, 1072369, 1110613, 1150368, 1191754,
1234897, 1279942, 1327045, 1376382, 1428148, 1482561, 1539865, 1600335, 1664279, 1732051,
1804048, 1880726, 1962611, 2050304, 2144507, 2246037, 2355852, 2475087, 2605089, 2747477 >>
Tan(d) == TanTable[d]
Types == {"low", "high", "band", "stop"}

\* substitute u / v for s in the prototype of order N
RECURSIVE Subst(_, _, _, _)
Subst(N, u, v, k) == LET t == PScale(PMul(PPow(u, k), PPow(v, N - k)), Proto[N][k + 1])
                     IN IF k = 0 THEN t ELSE PAdd(t, Subst(N, u, v, k - 1))
\* numerator and denominator before normalization
Parts(type, N, d1, d2) ==
  LET w1 == Tan(d1) w2 == IF d2 = 0 THEN 0 ELSE Tan(d2)
      up == PAdd(PMul(Minus1, Minus1), PScale(PMul(Plus1, Plus1), Mul(w1, w2)))   \* s^2 + w1 w2
      bw == PScale(<<One, 0, -One>>, w2 - w1)                                     \* s (w2 - w1)
  IN CASE type = "low"  -> [u |-> Minus1, v |-> PScale(Plus1, w1)]
       [] type = "high" -> [u |-> PScale(Plus1, w1), v |-> Minus1]
       [] type = "band" -> [u |-> up, v |-> bw]
       [] type = "stop" -> [u |-> bw, v |-> up]
Coefs(type, N, d1, d2) ==
  LET p == TLCEval(Parts(type, N, d1, d2))
      den == TLCEval(Subst(N, p.u, p.v, N))
      num == TLCEval(PPow(p.v, N))
  IN [a |-> TLCEval([k \in DOMAIN den |-> Div(den[k], den[1])]), b |-> TLCEval([k \in DOMAIN num |-> Div(num[k], den[1])])]

\* the least order that damps by 20 dB at the stop band when 3 dB are allowed at the pass band
RECURSIVE OrderFrom(_, _, _)
OrderFrom(r, p, n) == IF p >= 9973600 THEN n ELSE OrderFrom(r, Mul(p, r), n + 1)
OrderOf(pass, stp) == LET a == Tan(pass) b == Tan(stp) r == IF a < b THEN Div(b, a) ELSE Div(a, b) IN OrderFrom(r, r, 1)
\* of corners in ascending order
AutoOrder(type, c) == CASE type = "low" -> OrderOf(c[1], c[2])
                        [] type = "high" -> OrderOf(c[2], c[1])
                        [] type = "band" -> MaxF(OrderOf(c[2], c[1]), OrderOf(c[3], c[4]))
                        [] type = "stop" -> MaxF(OrderOf(c[1], c[2]), OrderOf(c[4], c[3]))
AutoCorners(type, c) == CASE type = "low" -> <<c[1], 0>> [] type = "high" -> <<c[2], 0>>
                          [] type = "band" -> <<c[2], c[3]>> [] type = "stop" -> <<c[1], c[4]>>

\* ---- filtering --------------------------------------------------------------------
\* the window: an odd number of samples about its centre, as far as they are in the trace
WinAsk(ns, nw) == LET n == IF nw = 0 \/ nw > ns THEN ns ELSE nw IN IF n % 2 = 1 THEN n ELSE n - 1
WinMid(ns, wc) == IF wc = 0 THEN ns \div 2 ELSE wc
WinStart(ns, nw, wc) == MaxF(0, WinMid(ns, wc) - WinAsk(ns, nw) \div 2)                  \* from 0
WinEnd(ns, nw, wc) == LET e == WinMid(ns, wc) + WinAsk(ns, nw) \div 2 + 1 IN IF e < ns THEN e ELSE ns
WinLen(ns, nw, wc) == WinEnd(ns, nw, wc) - WinStart(ns, nw, wc)

\* the sample at any distance before (k < 1) or after (k > n) the window
Beyond(x, k, pad) ==
  LET n == Len(x) IN
  CASE pad = 0 -> 0
    [] pad = 1 -> IF n = 1 THEN x[1] ELSE LET r == (k - 1) % (2 * (n - 1)) IN x[1 + (IF r < n THEN r ELSE 2 * (n - 1) - r)]
    [] pad = 2 -> IF k < 1 THEN x[1] ELSE x[n]
    [] pad = 3 -> x[1 + ((k - 1) % n)]
Padded(x, m, pad) == [j \in 1..(Len(x) + 2 * m) |-> IF j > m /\ j <= m + Len(x) THEN x[j - m] ELSE Beyond(x, j - m, pad)]
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]

\* the state in which the filter rests on a constant 1
Rest(f) ==
  LET N == Len(f.a) - 1
      c == [i \in 1..N |-> f.b[i + 1] - Mul(f.a[i + 1], f.b[1])]
      z1 == Div(Total(c), Total(f.a))
  IN [i \in 1..N |-> Mul(Sum(f.a, i), z1) - Sum(c, i - 1)]
RECURSIVE Run(_, _, _, _)
Run(f, x, z, y) ==       \* y: what has been put out
  LET i == Len(y) + 1 N == Len(f.a) - 1 IN
  IF i > Len(x) THEN y
  ELSE LET st == IF i <= N THEN z[i] ELSE 0
           m == IF i - 1 < N THEN i - 1 ELSE N
           acc == st + Mul(f.b[1], x[i]) + Total([j \in 1..m |-> Mul(f.b[j + 1], x[i - j]) - Mul(f.a[j + 1], y[i - j])])
       IN Run(f, x, z, Append(y, acc))
Pass(f, x) == LET r == Rest(f) IN Run(f, x, [i \in DOMAIN r |-> Mul(r[i], x[1])], <<>>)
\* forward and backward, so that nothing is shifted in time
Filtered(f, x, pad) ==
  LET m == 3 * Len(f.a)
      p == TLCEval(Padded(x, m, pad))
      y == TLCEval(Rev(TLCEval(Pass(f, TLCEval(Rev(TLCEval(Pass(f, p))))))))
  IN SubSeq(y, m + 1, m + Len(x))

\* ---- the gain at the frequency whose half angle is w degrees -----------------------
RECURSIVE PowF(_, _)
PowF(q, n) == IF n = 0 THEN One ELSE Mul(q, PowF(q, n - 1))
TanF(w) == IF w = 0 THEN 0 ELSE Tan(w)
\* its square: 1 / (1 + (A/B)^N)
Gain2(type, N, d1, d2, w) ==
  LET t == TanF(w) t1 == Tan(d1) t2 == TanF(d2)
      p == Mul(t, t) - Mul(t1, t2) q == Mul(t, t2 - t1)
      one == d2 = 0
      a == IF one THEN Mul(t, t) ELSE Mul(p, p)
      b == IF one THEN Mul(t1, t1) ELSE Mul(q, q)
      x == IF type \in {"low", "band"} THEN a ELSE b
      y == IF type \in {"low", "band"} THEN b ELSE a
      r == PowF(IF x <= y THEN Div(x, y) ELSE Div(y, x), N)
  IN Div(IF x <= y THEN One ELSE r, One + r)
=============================================================================

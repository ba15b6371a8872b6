------------------------------ MODULE MCFilter ------------------------------
(* The definition of C28: the filters of every order, type and corner have    *)
(* the gains a Butterworth filter has at the ends of the band, and rest on    *)
(* constants.                                                                 *)
EXTENDS Filter
CONSTANTS DS, NS, NB

VARIABLE f
Cases == [type : {"low", "high"}, N : NS, d1 : DS, d2 : {0}]
         \cup {c \in [type : {"band", "stop"}, N : NB, d1 : DS, d2 : DS] : c.d1 + 10 <= c.d2}
Init == f \in Cases
Next == UNCHANGED f
Spec == Init /\ [][Next]_f

C == Coefs(f.type, f.N, f.d1, f.d2)
Alt(s) == Total([k \in DOMAIN s |-> IF k % 2 = 1 THEN s[k] ELSE -s[k]])
Close(x, y) == AbsF(x - y) <= 300
\* the gain is num/den: compare num with gain * den
Ends == LET c == C IN
  CASE f.type = "low"  -> Close(Total(c.b), Total(c.a)) /\ Close(Alt(c.b), 0)
    [] f.type = "high" -> Close(Total(c.b), 0) /\ Close(Alt(c.b), Alt(c.a))
    [] f.type = "band" -> Close(Total(c.b), 0) /\ Close(Alt(c.b), 0)
    [] f.type = "stop" -> Close(Total(c.b), Total(c.a)) /\ Close(Alt(c.b), Alt(c.a))
Shape == LET c == C n == f.N * (IF f.d2 = 0 THEN 1 ELSE 2) IN Len(c.a) = n + 1 /\ Len(c.b) = n + 1 /\ c.a[1] = One
\* a constant trace passes or vanishes
Const == f.N <= 2 /\ f.d1 >= 20 => LET x == [i \in 1..25 |-> One] y == Filtered(C, x, 2) IN
  \A i \in DOMAIN y : AbsF(y[i] - (IF f.type \in {"low", "stop"} THEN One ELSE 0)) <= 5000
\* running it backwards makes no difference where the padding is long enough for the filter to die out:
\* nothing is shifted
Mirror == f.N <= 2 /\ f.d1 >= 30 /\ f.d2 = 0 => LET x == [i \in 1..21 |-> IF i = 11 THEN 8 * One ELSE IF i \in {9, 13} THEN -3 * One ELSE 0]
                                         y == Filtered(C, x, 0)
                                     IN \A i \in DOMAIN y : AbsF(y[i] - y[22 - i]) <= 5000
\* the filter of the coefficients is the one of the closed form: at the corners, and where z = i (half angle 45)
\* |sum p[k] (-i)^k|^2
Quarter(p) == LET re == Total([k \in DOMAIN p |-> IF k % 4 = 1 THEN p[k] ELSE IF k % 4 = 3 THEN -p[k] ELSE 0])
                  im == Total([k \in DOMAIN p |-> IF k % 4 = 2 THEN p[k] ELSE IF k % 4 = 0 THEN -p[k] ELSE 0])
              IN Mul(re, re) + Mul(im, im)
Gains == f.d1 >= 20 /\ (f.N <= 2 \/ f.d2 = 0 \/ f.d2 >= f.d1 + 20) =>
         LET c == C g == Gain2(f.type, f.N, f.d1, f.d2, 45) IN
         /\ AbsF(Quarter(c.b) - Mul(g, Quarter(c.a))) <= 300 + Quarter(c.a) \div 500
         /\ \A d \in {f.d1, f.d2} \ {0} : AbsF(Gain2(f.type, f.N, f.d1, f.d2, d) - One \div 2) <= 300
============================================================================

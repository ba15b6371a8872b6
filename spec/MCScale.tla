------------------------------ MODULE MCScale -------------------------------
(* C08 on a small machine: integers of magnitude <= MAXV instead of 32 bits,  *)
(* scales 10^-E..10^E.  The rule "take the finest scale at which every value  *)
(* of the group is exact and fits; if none, the finest at which all fit,      *)
(* rounded" (what the code computes incrementally) keeps every stored value   *)
(* within half a unit, is exact whenever some scale is, and always fits.      *)
EXTENDS Integers, FiniteSets
CONSTANTS LIM, MAXV, E
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
\* values in units of 10^-(E+1), finer than the finest scale
U(ex) == P10(E + 1 + ex)
Abs(x) == IF x < 0 THEN -x ELSE x
Round(x, u) == LET q == Abs(x) \div u r == Abs(x) % u
                   m == IF 2 * r >= u THEN q + 1 ELSE q IN IF x < 0 THEN -m ELSE m
FitsAt(x, ex) == Abs(Round(x, U(ex))) <= MAXV
Top == MAXV * U(E)
Vals == {s * k * P10(j) : s \in {1, -1}, k \in 0..LIM, j \in 0..(2 * E + 1)}
VARIABLES a, b
vars == <<a, b>>
\* what a single value asks for: coarse if it must, else the finest needed for its decimals (if it fits)
Exps == -E..E
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Want(x) == IF ~FitsAt(x, 0) THEN MinOf({ex \in 0..E : FitsAt(x, ex)})
           ELSE LET need == {ex \in -E..0 : x % U(ex) = 0} IN
                LET ideal == IF need = {} THEN -E ELSE MaxOf(need)
                    ok == {ex \in ideal..0 : FitsAt(x, ex)} IN MinOf(ok)
Both == IF Want(a) > 0 \/ Want(b) > 0 THEN (IF Want(a) > Want(b) THEN Want(a) ELSE Want(b))
        ELSE (IF Want(a) < Want(b) THEN Want(a) ELSE Want(b))
Chosen == MinOf({ex \in Both..E : FitsAt(a, ex) /\ FitsAt(b, ex)})
InDomain == Abs(a) <= Top /\ Abs(b) <= Top
HalfUnit == InDomain => \A x \in {a, b} : /\ FitsAt(x, Chosen)
                                          /\ 2 * Abs(x - Round(x, U(Chosen)) * U(Chosen)) <= U(Chosen)
ExactIfPossible == InDomain /\ (\E ex \in Exps : \A x \in {a, b} : x % U(ex) = 0 /\ FitsAt(x, ex))
                   => \A x \in {a, b} : x % U(Chosen) = 0
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================

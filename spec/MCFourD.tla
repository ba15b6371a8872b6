------------------------------ MODULE MCFourD ------------------------------
(* The design of C26: both surveys are sorted by source and dealt in blocks;  *)
(* a process compares its traces of the first survey with the blocks of the   *)
(* second that can have a match, leaving out at both ends what lies too far   *)
(* away.  One coordinate; a match may have been shot in either direction.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PROCS, XS, N1, N2, DMAX

VARIABLES P, d, a, b, todo, best        \* a, b: the surveys, traces <<source, receiver>> in order of source
vars == <<P, d, a, b, todo, best>>

Traces == XS \X XS
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Surveys(n) == {s \in [1..n -> Traces] : Sorted(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(x, y) == LET f == Abs(x[1] - y[1]) + Abs(x[2] - y[2]) r == Abs(x[1] - y[2]) + Abs(x[2] - y[1])
              IN IF f <= r THEN f ELSE r
Ranks == 0..(P - 1)
Size(n, r) == (n \div P) + (IF r < n % P THEN 1 ELSE 0)
Off(n, r) == r * (n \div P) + (IF r < n % P THEN r ELSE n % P)
Block(s, r) == LET n == Len(s) IN (Off(n, r) + 1)..(Off(n, r) + Size(n, r))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Xs(s, I) == UNION {{s[i][1], s[i][2]} : i \in I}

Active(r) ==
  LET mine == Xs(a, Block(a, r)) IN
  {q \in Ranks : /\ Min({b[j][1] : j \in Block(b, q)}) - d <= Max(mine)
                 /\ Max({b[j][1] : j \in Block(b, q)}) + d >= Min(mine)}

Far == 1000
Better(x, y) == IF y[1] < x[1] THEN y ELSE x
Init ==
  /\ P \in PROCS /\ d \in 0..DMAX
  /\ a \in UNION {Surveys(n) : n \in P..N1} /\ b \in UNION {Surveys(n) : n \in P..N2}
  /\ todo = [r \in Ranks |-> Active(r)]
  \* to begin with, the first trace of the block at hand
  /\ best = [r \in Ranks |-> [i \in Block(a, r) |->
               LET j == Off(Len(b), r) + 1 IN <<Dist(a[i], b[j]), j>>]]

\* what is left of two blocks
Rights(r, q) == LET m == Xs(a, Block(a, r)) IN {j \in Block(b, q) : Min(m) - d <= b[j][1] /\ b[j][1] <= Max(m) + d}
Lefts(r, R) == LET m == Xs(b, R) IN {i \in Block(a, r) : Min(m) - d <= a[i][1] /\ a[i][1] <= Max(m) + d}

RECURSIVE Search(_, _, _)
Search(x, cur, R) == IF R = {} THEN cur
                     ELSE LET j == Min(R) IN Search(x, Better(cur, <<Dist(x, b[j]), j>>), R \ {j})
Round(r, q) ==
  /\ q \in todo[r]
  /\ todo' = [todo EXCEPT ![r] = @ \ {q}]
  /\ LET R == Rights(r, q) L == IF R = {} THEN {} ELSE Lefts(r, R)
     IN best' = [best EXCEPT ![r] = [i \in Block(a, r) |-> IF i \in L THEN Search(a[i], @[i], R) ELSE @[i]]]
  /\ UNCHANGED <<P, d, a, b>>
Done == \A r \in Ranks : todo[r] = {}
Next == (\E r \in Ranks, q \in Ranks : Round(r, q)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Least(i) == Min({Dist(a[i], b[j]) : j \in DOMAIN b})
Right == Done => \A r \in Ranks : \A i \in Block(a, r) :
  IF Least(i) <= d THEN best[r][i][1] = Least(i) /\ Dist(a[i], b[best[r][i][2]]) = Least(i)
  ELSE best[r][i][1] > d
\* whatever the search has seen, it never claims a distance nobody has
Honest == \A r \in Ranks : \A i \in Block(a, r) : Dist(a[i], b[best[r][i][2]]) = best[r][i][1]
=============================================================================

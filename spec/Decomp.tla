------------------------------- MODULE Decomp -------------------------------
(* C01: dividing N items over P processes.  The abstract requirement        *)
(* (IsPartition) and the design the library uses (Offset, Size, Owner).     *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

\* the design: the remainder goes to the low ranks
Size(N, P, r)   == N \div P + (IF r < N % P THEN 1 ELSE 0)
Offset(N, P, r) == (N \div P) * r + Min2(r, N % P)
OwnerRank(N, P, i) ==
  LET c == N \div P  m == N % P
  IN IF i < (c + 1) * m THEN i \div (c + 1)
     ELSE (i - (c + 1) * m) \div c + m
OwnerIndex(N, P, i) == i - Offset(N, P, OwnerRank(N, P, i))

\* the requirement, on a list of ranges <<[b |-> begin, n |-> size], ...>>
IsPartition(N, d) ==
  /\ d[1].b = 0
  /\ \A k \in 1..(Len(d) - 1) : d[k].b + d[k].n = d[k + 1].b
  /\ d[Len(d)].b + d[Len(d)].n = N
Balanced(d) == \A j, k \in 1..Len(d) : d[j].n - d[k].n \in {-1, 0, 1}
=============================================================================

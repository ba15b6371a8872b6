------------------------------ MODULE MCDecomp ------------------------------
(* Exhaustive check of the decomposition design over all N <= MaxN, P <= MaxP *)
EXTENDS Decomp
CONSTANTS MaxN, MaxP
VARIABLES N, P
Init == N \in 0..MaxN /\ P \in 1..MaxP
Next == UNCHANGED <<N, P>>
Spec == Init /\ [][Next]_<<N, P>>
D == [r \in 1..P |-> [b |-> Offset(N, P, r - 1), n |-> Size(N, P, r - 1)]]
Partition == IsPartition(N, D) /\ Balanced(D)
Owner == \A i \in 0..(N - 1) :
           LET r == OwnerRank(N, P, i) IN
           /\ r \in 0..(P - 1)
           /\ D[r + 1].b <= i /\ i < D[r + 1].b + D[r + 1].n
           /\ OwnerIndex(N, P, i) = i - D[r + 1].b
=============================================================================

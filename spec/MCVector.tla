------------------------------ MODULE MCVector ------------------------------
(* The design behind C14: element i lives in the window of the process that   *)
(* owns it, ELT bytes from its local position; a store by another process     *)
(* writes the bytes one at a time.  With windows of local size times ELT      *)
(* bytes every element is a cell of its own, whatever the interleaving.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, PROCS, ELT, VALS
Proc == 0..(PROCS - 1)
Idx == 0..(N - 1)
Sz(r) == N \div PROCS + (IF r < N % PROCS THEN 1 ELSE 0)
Off(r) == r * (N \div PROCS) + (IF r < N % PROCS THEN r ELSE N % PROCS)
Owner(i) == CHOOSE r \in Proc : i >= Off(r) /\ i < Off(r) + Sz(r)
Li(i) == i - Off(Owner(i))
WinBytes(r) == Sz(r) * ELT

VARIABLES win, arr, act, owner, done
vars == <<win, arr, act, owner, done>>
\* act[p]: a store in progress <<index, value, bytes written>>; owner: who may store an element in this phase
Init == /\ win = [r \in Proc |-> [b \in 0..(WinBytes(r) - 1) |-> 0]]
        /\ arr = [i \in Idx |-> 0]
        /\ act = [p \in Proc |-> <<>>]
        /\ owner \in [Idx -> Proc]
        /\ done = {}
Begin(p) == /\ act[p] = <<>>
            /\ \E i \in Idx \ done : \E v \in VALS :
                 /\ owner[i] = p
                 /\ act' = [act EXCEPT ![p] = <<i, v, 0>>]
            /\ UNCHANGED <<win, arr, owner, done>>
Byte(p) == /\ act[p] # <<>> /\ act[p][3] < ELT
           /\ LET i == act[p][1] b == Li(i) * ELT + act[p][3] IN
              /\ win' = [win EXCEPT ![Owner(i)][b] = act[p][2]]
              /\ act' = [act EXCEPT ![p][3] = @ + 1]
           /\ UNCHANGED <<arr, owner, done>>
Finish(p) == /\ act[p] # <<>> /\ act[p][3] = ELT
             /\ arr' = [arr EXCEPT ![act[p][1]] = act[p][2]]
             /\ done' = done \cup {act[p][1]}
             /\ act' = [act EXCEPT ![p] = <<>>]
             /\ UNCHANGED <<win, owner>>
\* a synchronisation point: a new phase, other processes may store
Sync == /\ \A p \in Proc : act[p] = <<>>
        /\ done' = {}
        /\ owner' \in [Idx -> Proc]
        /\ UNCHANGED <<win, arr, act>>
Next == Sync \/ \E p \in Proc : Begin(p) \/ Byte(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars

InWindow == \A i \in Idx : (Li(i) + 1) * ELT <= WinBytes(Owner(i))
Settled(i) == \A p \in Proc : act[p] = <<>> \/ act[p][1] # i
AsArray == \A i \in Idx : Settled(i) =>
             \A k \in 0..(ELT - 1) : win[Owner(i)][Li(i) * ELT + k] = arr[i]
=============================================================================

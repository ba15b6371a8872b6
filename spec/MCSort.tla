------------------------------- MODULE MCSort -------------------------------
(* The design behind C10: neighbour-exchange sort.  Every process holds its   *)
(* part sorted.  In a round it sends its first R entries to the left          *)
(* neighbour, which sorts them together with its own tail; it then sends the  *)
(* last R of these to the right, where they replace the ones sent; and that   *)
(* process sorts its part again.  Rounds end when no process changed.         *)
(* R must be at least 1, and sorting stable, for this to be right; processes  *)
(* move on their own, coupled only by the messages and the reduction.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PROCS, SIZES, VALS

Proc == 1..PROCS
VARIABLES size, loc, old, pc, toL, toR, changed, init
vars == <<size, loc, old, pc, toL, toR, changed, init>>

MinZ(Z) == CHOOSE x \in Z : \A y \in Z : x <= y
R == LET m == MinZ({size[p] : p \in Proc}) IN IF m \div 4 = 0 THEN 1 ELSE m \div 4
Edge1(p) == IF p = 1 THEN 0 ELSE R
Edge2(p) == IF p = PROCS THEN 0 ELSE R

\* stable insertion sort by the first component
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>>
             ELSE IF x[1] < s[Len(s)][1] THEN Append(Ins(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
             ELSE Append(s, x)
RECURSIVE SortFrom(_, _, _)
SortFrom(s, k, acc) == IF k > Len(s) THEN acc ELSE SortFrom(s, k + 1, Ins(acc, s[k]))
Srt(s) == SortFrom(s, 1, <<>>)

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
RECURSIVE CatAll(_, _)
CatAll(f, k) == IF k > PROCS THEN <<>> ELSE f[k] \o CatAll(f, k + 1)

Init == \E z \in [Proc -> SIZES] : \E v \in [1..Sum(z, PROCS) -> VALS] :
          /\ size = z
          /\ LET start(p) == Sum(z, p - 1)
                 mine(p) == [k \in 1..z[p] |-> <<v[start(p) + k], start(p) + k>>]
             IN /\ init = CatAll([p \in Proc |-> mine(p)], 1)
                /\ loc = [p \in Proc |-> Srt(mine(p))]
          /\ old = [p \in Proc |-> <<>>]
          /\ pc = [p \in Proc |-> "send"]
          /\ toL = [p \in Proc |-> <<>>]
          /\ toR = [p \in Proc |-> <<>>]
          /\ changed = [p \in Proc |-> FALSE]

\* p begins a round
SendL(p) == /\ pc[p] = "send"
            /\ old' = [old EXCEPT ![p] = SubSeq(loc[p], 1, size[p])]
            /\ toL' = IF p > 1 THEN [toL EXCEPT ![p] = SubSeq(loc[p], 1, R)] ELSE toL
            /\ pc' = [pc EXCEPT ![p] = "recvL"]
            /\ UNCHANGED <<size, loc, toR, changed, init>>
\* takes the head of its right neighbour, sorts it with its own tail, sends the last R back
RecvL(p) == /\ pc[p] = "recvL"
            /\ p < PROCS => toL[p + 1] # <<>>
            /\ LET all == SubSeq(loc[p], 1, size[p]) \o (IF p < PROCS THEN toL[p + 1] ELSE <<>>)
                   h == SubSeq(all, 1, Edge1(p))
                   t == Srt(SubSeq(all, Edge1(p) + 1, Len(all)))
                   n == h \o t
               IN /\ loc' = [loc EXCEPT ![p] = n]
                  /\ toR' = IF p < PROCS THEN [toR EXCEPT ![p] = SubSeq(n, Len(n) - R + 1, Len(n))] ELSE toR
            /\ toL' = IF p < PROCS THEN [toL EXCEPT ![p + 1] = <<>>] ELSE toL
            /\ pc' = [pc EXCEPT ![p] = "recvR"]
            /\ UNCHANGED <<size, old, changed, init>>
RecvR(p) == /\ pc[p] = "recvR"
            /\ p > 1 => toR[p - 1] # <<>>
            /\ LET h == IF p > 1 THEN toR[p - 1] ELSE <<>>
                   n == Srt(SubSeq(h \o SubSeq(loc[p], Edge1(p) + 1, Len(loc[p])), 1, size[p]))
               IN /\ loc' = [loc EXCEPT ![p] = n]
                  /\ changed' = [changed EXCEPT ![p] = (n # old[p])]
            /\ toR' = IF p > 1 THEN [toR EXCEPT ![p - 1] = <<>>] ELSE toR
            /\ pc' = [pc EXCEPT ![p] = "reduce"]
            /\ UNCHANGED <<size, old, toL, init>>
Reduce == /\ \A p \in Proc : pc[p] = "reduce"
          /\ pc' = [p \in Proc |-> IF \E q \in Proc : changed[q] THEN "send" ELSE "done"]
          /\ UNCHANGED <<size, loc, old, toL, toR, changed, init>>
Done == (\A p \in Proc : pc[p] = "done") /\ UNCHANGED vars
Next == Reduce \/ Done \/ \E p \in Proc : SendL(p) \/ RecvL(p) \/ RecvR(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == \A p \in Proc : pc[p] = "done"
Result == CatAll([p \in Proc |-> loc[p]], 1)
Sorted == Finished => Result = Srt(init)
Counts == Finished => \A p \in Proc : Len(loc[p]) = size[p]
NothingInFlight == Finished => \A p \in Proc : toL[p] = <<>> /\ toR[p] = <<>>
Terminates == <>Finished
=============================================================================

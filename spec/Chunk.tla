------------------------------- MODULE Chunk -------------------------------
(* C02/C03: how one large request is split into calls below the transfer     *)
(* limit, and how processes with less to do keep the calls matched.          *)
(*                                                                           *)
(* Every process r wants amt[r] blocks of esz[r] bytes.  A call moves at     *)
(* most Limit \div esz[r] blocks.  The processes first exchange how many     *)
(* calls each needs and then all make the largest number: the missing ones   *)
(* are empty.  A call is collective: it returns only when every process has  *)
(* made it.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, MaxAmt, Limit, MaxEsz

Proc == 1..P
VARIABLES amt, esz, pc, next, rem, incall, moved, calls
vars == <<amt, esz, pc, next, rem, incall, moved, calls>>

PerCall(r) == Limit \div esz[r]
Need(r) == amt[r] \div PerCall(r) + (IF amt[r] % PerCall(r) > 0 THEN 1 ELSE 0)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ amt \in [Proc -> 0..MaxAmt]
        /\ esz \in [Proc -> 1..MaxEsz]
        /\ pc = [r \in Proc |-> "exchange"]
        /\ next = [r \in Proc |-> 0]
        /\ rem = [r \in Proc |-> 0]
        /\ incall = [r \in Proc |-> "none"]
        /\ moved = [r \in Proc |-> {}]
        /\ calls = [r \in Proc |-> 0]

\* the exchange is itself collective
Exchange == /\ \A r \in Proc : pc[r] = "exchange"
            /\ rem' = [r \in Proc |-> SetMax({Need(q) : q \in Proc}) - Need(r)]
            /\ pc' = [r \in Proc |-> "io"]
            /\ UNCHANGED <<amt, esz, next, incall, moved, calls>>

\* process r enters its next call, with a chunk or empty
Enter(r) == /\ pc[r] = "io" /\ incall[r] = "none"
            /\ \/ /\ next[r] < amt[r]
                  /\ LET n == Min2(amt[r] - next[r], PerCall(r)) IN
                     /\ moved' = [moved EXCEPT ![r] = @ \cup {next[r] + i : i \in 0..(n - 1)}]
                     /\ next' = [next EXCEPT ![r] = @ + n]
                     /\ n * esz[r] <= Limit
                  /\ UNCHANGED rem
               \/ /\ next[r] >= amt[r] /\ rem[r] > 0
                  /\ rem' = [rem EXCEPT ![r] = @ - 1]
                  /\ UNCHANGED <<moved, next>>
            /\ incall' = [incall EXCEPT ![r] = "in"]
            /\ calls' = [calls EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<amt, esz, pc>>

\* ... and leaves when everybody is in it
Complete == /\ \A r \in Proc : incall[r] = "in"
            /\ incall' = [r \in Proc |-> "none"]
            /\ UNCHANGED <<amt, esz, pc, next, rem, moved, calls>>

Finish(r) == /\ pc[r] = "io" /\ incall[r] = "none" /\ next[r] >= amt[r] /\ rem[r] = 0
             /\ pc' = [pc EXCEPT ![r] = "done"]
             /\ UNCHANGED <<amt, esz, next, rem, incall, moved, calls>>

Done == /\ \A r \in Proc : pc[r] = "done"
        /\ UNCHANGED vars

Next == Exchange \/ Complete \/ Done \/ \E r \in Proc : Enter(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no process is left waiting in a call after another has finished
NoneStranded == \A r \in Proc : pc[r] = "done" => \A q \in Proc : calls[q] = calls[r] \/ pc[q] # "done"
Exact == \A r \in Proc : pc[r] = "done" => moved[r] = 0..(amt[r] - 1)
Matched == (\A r \in Proc : pc[r] = "done") => \A q, r \in Proc : calls[q] = calls[r]
Terminates == <>(\A r \in Proc : pc[r] = "done")
=============================================================================

------------------------------ MODULE MCFault ------------------------------
(* C04: one writing session in which any collective file operation may tell  *)
(* some of the processes that it failed.  Every process carries on with the  *)
(* call sequence the others expect and remembers the failure; whether the    *)
(* file is finalised at the end is decided together.                         *)
EXTENDS Integers, FiniteSets
CONSTANTS NP, MAXCH, MAXFAIL

Proc == 1..NP
VARIABLES chunks, pc, left, err, failed, agreed
vars == <<chunks, pc, left, err, failed, agreed>>

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* pc: the collective operation a process is in (it leaves when all are in it)
Init == /\ chunks \in [Proc -> 0..MAXCH]
        /\ pc = [r \in Proc |-> "open"]
        /\ left = [r \in Proc |-> 0]
        /\ err = [r \in Proc |-> FALSE]
        /\ failed = [r \in Proc |-> FALSE]
        /\ agreed = [r \in Proc |-> "?"]

FileOps == {"open", "view", "transfer", "unview", "size", "header", "close"}
nfailed == Cardinality({r \in Proc : failed[r]})

\* where a process goes after its current operation; l is what it has left to transfer
After(r, l, ag) ==
  CASE pc[r] = "open" -> "count"
    [] pc[r] = "count" -> IF l > 0 THEN "view" ELSE "agree"
    [] pc[r] = "view" -> "transfer"
    [] pc[r] = "transfer" -> "unview"
    [] pc[r] = "unview" -> IF l > 0 THEN "view" ELSE "agree"
    [] pc[r] = "agree" -> IF ag THEN "size" ELSE "close"
    [] pc[r] = "size" -> "header"
    [] pc[r] = "header" -> "close"
    [] pc[r] = "close" -> "done"

Step == /\ \E x \in FileOps \cup {"count", "agree"} : \A r \in Proc : pc[r] = x
        /\ \E F \in SUBSET Proc :
             /\ pc[1] \in FileOps \/ F = {}
             /\ nfailed + Cardinality(F) <= MAXFAIL
             /\ pc[1] = "open" => F \in {{}, Proc}
             /\ failed' = [r \in Proc |-> failed[r] \/ r \in F]
             /\ err' = [r \in Proc |-> err[r] \/ r \in F]
        /\ LET most == SetMax({chunks[q] : q \in Proc})
               l == [r \in Proc |-> IF pc[r] = "count" THEN most
                                    ELSE IF pc[r] = "unview" THEN left[r] - 1 ELSE left[r]]
               ag == \A q \in Proc : ~err[q]          \* the largest error flag
           IN /\ left' = l
              /\ agreed' = IF pc[1] = "agree" THEN [r \in Proc |-> IF ag THEN "y" ELSE "n"] ELSE agreed
              /\ pc' = [r \in Proc |-> After(r, l[r], ag)]
        /\ UNCHANGED chunks

Done == (\A r \in Proc : pc[r] = "done") /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* everybody is always in the same operation
Matched == \A q, r \in Proc : pc[q] = pc[r]
Reported == \A r \in Proc : err[r] = failed[r]
\* only a session without failures is finalised
FinalisedOk == \A r \in Proc : pc[r] \in {"size", "header"} => agreed[r] = "y"
Terminates == <>(\A r \in Proc : pc[r] = "done")
=============================================================================

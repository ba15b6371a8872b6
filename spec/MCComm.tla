------------------------------- MODULE MCComm -------------------------------
(* C24: instances on disjoint groups of processes.  A program is a sequence  *)
(* of steps; each is a reduction over the instance's communicator, or a      *)
(* message to the neighbour with the next rank of that communicator.  A      *)
(* step is addressed by ranks of the communicator it is taken on.  For every *)
(* partition, and groups that take no part, each instance ends, with results *)
(* that its own processes alone determine.  WRONG = k lets the k-th step be  *)
(* taken on the communicator of all processes (0: none): then it does not.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, NG, MAXL, WRONG

Proc == 0..(NP - 1)
Grp == 1..NG
VARIABLES part, prog, pc, got, box, res
vars == <<part, prog, pc, got, box, res>>

Members(c) == IF c = 0 THEN Proc ELSE {r \in Proc : part[r] = c}
RankIn(c, r) == Cardinality({q \in Members(c) : q < r})
SizeOf(c) == Cardinality(Members(c))
At(c, k) == CHOOSE r \in Members(c) : RankIn(c, r) = k
CommOf(r, k) == IF k = WRONG THEN 0 ELSE part[r]
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Contribution == [r \in Proc |-> 10 ^ r]

Init == /\ part \in [Proc -> Grp]
        /\ prog \in [Grp -> UNION {[1..n -> {"sum", "next"}] : n \in 0..MAXL}]
        /\ pc = [r \in Proc |-> 1]
        /\ got = [r \in Proc |-> {}]      \* messages: the step they were sent in
        /\ box = [r \in Proc |-> FALSE]   \* has sent in the current step
        /\ res = [r \in Proc |-> <<>>]

MyProg(r) == prog[part[r]]
Active(r) == pc[r] <= Len(MyProg(r))
Kind(r) == MyProg(r)[pc[r]]

\* all members of the communicator have to be in a reduction on it
Sum(r) ==
  /\ Active(r) /\ Kind(r) = "sum"
  /\ LET c == CommOf(r, pc[r]) IN
     /\ \A q \in Members(c) : Active(q) /\ Kind(q) = "sum" /\ CommOf(q, pc[q]) = c
     /\ pc' = [q \in Proc |-> IF q \in Members(c) THEN pc[q] + 1 ELSE pc[q]]
     /\ res' = [q \in Proc |-> IF q \in Members(c) THEN Append(res[q], SumSet(Contribution, Members(c))) ELSE res[q]]
  /\ UNCHANGED <<part, prog, got, box>>

Send(r) ==
  /\ Active(r) /\ Kind(r) = "next" /\ ~box[r]
  /\ box' = [box EXCEPT ![r] = TRUE]
  /\ LET c == CommOf(r, pc[r])
         k == RankIn(part[r], r)             \* the instance's own rank
     IN got' = IF k + 1 < SizeOf(part[r]) THEN [got EXCEPT ![At(c, k + 1)] = @ \cup {<<c, pc[r], r>>}] ELSE got
  /\ UNCHANGED <<part, prog, pc, res>>

Recv(r) ==
  /\ Active(r) /\ Kind(r) = "next" /\ box[r]
  /\ LET c == CommOf(r, pc[r])
         k == RankIn(part[r], r)
         need == k > 0
         frm == IF need THEN At(c, k - 1) ELSE r
     IN /\ need => <<c, pc[r], frm>> \in got[r]
        /\ got' = IF need THEN [got EXCEPT ![r] = @ \ {<<c, pc[r], frm>>}] ELSE got
        /\ res' = [res EXCEPT ![r] = Append(@, IF need THEN Contribution[frm] ELSE 0)]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ box' = [box EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<part, prog>>

AllDone == (\A r \in Proc : ~Active(r)) /\ UNCHANGED vars
Next == (\E r \in Proc : Sum(r) \/ Send(r) \/ Recv(r)) \/ AllDone
Spec == Init /\ [][Next]_vars

\* what the program means when the instance is alone
Meaning(r, k) ==
  IF MyProg(r)[k] = "sum" THEN SumSet(Contribution, Members(part[r]))
  ELSE LET q == RankIn(part[r], r) IN IF q = 0 THEN 0 ELSE Contribution[At(part[r], q - 1)]
OwnResults == \A r \in Proc : \A k \in DOMAIN res[r] : res[r][k] = Meaning(r, k)
NothingLeft == (\A r \in Proc : ~Active(r)) => \A r \in Proc : got[r] = {}
\* (absence of deadlock: every instance ends)
=============================================================================

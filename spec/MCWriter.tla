------------------------------ MODULE MCWriter ------------------------------
(* C05/C06: a writing session of several processes.  A process knows only    *)
(* its own writes; the number of traces is agreed when the file is closed    *)
(* (if a write has happened since it was last declared), then the file is    *)
(* given its exact size.  It must come out as if one process had done it     *)
(* all: file is what is on disk, want what the session means.                *)
EXTENDS Integers, FiniteSets
CONSTANTS NP, MAXT, STEPS

Proc == 1..NP
Trc == 0..(MAXT - 1)
NoData == "hole"
Old == "old"
VARIABLES len0, nt, stale, disk, end, want, wantNt, step, closed
vars == <<len0, nt, stale, disk, end, want, wantNt, step, closed>>
\* disk: contents by trace; end: traces on disk
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Max2(a, b) == IF a > b THEN a ELSE b

Init == /\ len0 \in {0, 2, MAXT}
        /\ nt = [r \in Proc |-> 0] /\ stale = [r \in Proc |-> FALSE]
        /\ disk = [t \in Trc |-> IF t < len0 THEN Old ELSE NoData] /\ end = len0
        /\ want = [t \in Trc |-> IF t < len0 THEN Old ELSE NoData] /\ wantNt = 0
        /\ step = 0 /\ closed = FALSE

\* every process declares the same number
Declare(n) == /\ nt' = [r \in Proc |-> n] /\ stale' = [r \in Proc |-> FALSE] /\ wantNt' = n
              /\ UNCHANGED <<disk, end, want>>

\* process r writes the traces W[r], which are nobody else's
Parts == {W \in [Proc -> SUBSET Trc] : \A q, r \in Proc : q # r => W[q] \cap W[r] = {}}
Write(W) ==
  LET all == UNION {W[r] : r \in Proc} IN
  /\ disk' = [t \in Trc |-> IF t \in all THEN step ELSE disk[t]]
  /\ end' = IF all = {} THEN end ELSE Max2(end, SetMax(all) + 1)
  /\ nt' = [r \in Proc |-> IF W[r] = {} THEN nt[r] ELSE Max2(nt[r], SetMax(W[r]) + 1)]
  /\ stale' = [r \in Proc |-> TRUE]
  /\ want' = [t \in Trc |-> IF t \in all THEN step ELSE want[t]]
  /\ wantNt' = IF all = {} THEN wantNt ELSE Max2(wantNt, SetMax(all) + 1)

Close ==
  LET agreed == [r \in Proc |-> IF stale[r] THEN SetMax({nt[q] : q \in Proc}) ELSE nt[r]] IN
  /\ \A q, r \in Proc : stale[q] = stale[r]          \* the reduction is collective
  /\ \A q, r \in Proc : agreed[q] = agreed[r]        \* and so is setting the size
  /\ end' = agreed[1]
  /\ disk' = [t \in Trc |-> IF t < agreed[1] THEN disk[t] ELSE NoData]
  /\ closed' = TRUE
  /\ UNCHANGED <<len0, nt, stale, want, wantNt, step>>

Next == \/ /\ ~closed /\ step < STEPS /\ step' = step + 1 /\ UNCHANGED <<len0, closed>>
           /\ \/ \E n \in 0..MAXT : Declare(n)
              \/ \E W \in Parts : Write(W)
        \/ ~closed /\ Close
        \/ closed /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

ExactSize == closed => end = wantNt
Contents == closed => \A t \in Trc : t < wantNt => disk[t] = want[t]
NoTail == closed => \A t \in Trc : t >= wantNt => disk[t] = NoData
=============================================================================

------------------------------ MODULE MCGather ------------------------------
(* The design behind C13: every process finds the runs of its part; a run     *)
(* belongs to the process where it starts, which adds the traces the          *)
(* following processes have of it.  The entries are stored in a shared list,  *)
(* and nobody reads it before everybody has stored.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, PROCS, LINES
Proc == 0..(PROCS - 1)
VARIABLES line, list, pc, seen
vars == <<line, list, pc, seen>>

N == Len(line)
Off(r) == r * (N \div PROCS) + (IF r < N % PROCS THEN r ELSE N % PROCS)
Sz(r) == N \div PROCS + (IF r < N % PROCS THEN 1 ELSE 0)
Part(r) == [k \in 1..Sz(r) |-> line[Off(r) + k]]
RECURSIVE Runs(_, _, _)
Runs(p, k, acc) ==
  IF k > Len(p) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][2] = p[k] THEN Runs(p, k + 1, [acc EXCEPT ![Len(acc)] = <<@[1] + 1, @[2]>>])
  ELSE Runs(p, k + 1, Append(acc, <<1, p[k]>>))
Mine(r) == Runs(Part(r), 1, <<>>)
\* the nearest process before r that has traces
RECURSIVE Prev(_)
Prev(r) == IF r < 0 THEN -1 ELSE IF Sz(r) > 0 THEN r ELSE Prev(r - 1)
Start(r) == IF Sz(r) = 0 THEN 0
            ELSE LET q == Prev(r - 1) IN
                 IF q >= 0 /\ Mine(q)[Len(Mine(q))][2] = Mine(r)[1][2] THEN 1 ELSE 0
\* traces the processes from r on have of the run of line x that reaches them
RECURSIVE More(_, _)
More(r, x) == IF r >= PROCS THEN 0
              ELSE IF Sz(r) = 0 THEN More(r + 1, x)
              ELSE IF Mine(r)[1][2] # x THEN 0
              ELSE Mine(r)[1][1] + (IF Len(Mine(r)) > 1 THEN 0 ELSE More(r + 1, x))
Own(r) == LET m == Mine(r) IN
          [k \in 1..(Len(m) - Start(r)) |->
             LET g == m[k + Start(r)] IN
             IF k + Start(r) = Len(m) THEN <<g[1] + More(r + 1, g[2]), g[2]>> ELSE g]
RECURSIVE Before(_)
Before(r) == IF r = 0 THEN 0 ELSE Before(r - 1) + Len(Own(r - 1))

Init == /\ \E n \in 0..NT : line \in [1..n -> LINES]
        /\ list = [k \in 1..Before(PROCS) |-> <<0, 0>>]
        /\ pc = [r \in Proc |-> 1]       \* next own entry to store; past the end: at the barrier
        /\ seen = [r \in Proc |-> <<>>]
Store(r) == /\ pc[r] <= Len(Own(r))
            /\ list' = [list EXCEPT ![Before(r) + pc[r]] = Own(r)[pc[r]]]
            /\ pc' = [pc EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<line, seen>>
Read(r) == /\ \A q \in Proc : pc[q] > Len(Own(q))
           /\ seen[r] = <<>>
           /\ seen' = [seen EXCEPT ![r] = list]
           /\ UNCHANGED <<line, list, pc>>
Next == \E r \in Proc : Store(r) \/ Read(r)
Spec == Init /\ [][Next]_vars
AsSerial == \A r \in Proc : seen[r] # <<>> => seen[r] = Runs(line, 1, <<>>)
Length == Before(PROCS) = Len(Runs(line, 1, <<>>))
=============================================================================

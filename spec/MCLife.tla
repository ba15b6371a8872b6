------------------------------- MODULE MCLife -------------------------------
(* Every program of at most STEPS steps; the properties say what Life means  *)
(* to the program, without saying how.                                       *)
EXTENDS Life
CONSTANT STEPS
VARIABLES s, starts, ends, who, n, over
vars == <<s, starts, ends, who, n, over>>
Steps == {"I", "F", "T", "M", "N", "D", "W", "X"}
Init == s = L0 /\ starts = 0 /\ ends = 0 /\ who = "" /\ n = 0 /\ over = FALSE
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
Next ==
  /\ ~over /\ n < STEPS /\ n' = n + 1
  /\ \E a \in Steps :
       /\ CanDo(s, a)
       /\ LET d == Do(s, a) IN
          /\ s' = d[2]
          /\ starts' = starts + Count(d[1], "init") + (IF a = "I" THEN 1 ELSE 0)
          /\ ends' = ends + Count(d[1], "fin") + (IF a = "F" THEN 1 ELSE 0)
          /\ who' = IF a = "I" THEN "prog" ELSE IF "init" \in {d[1][k] : k \in DOMAIN d[1]} THEN "lib" ELSE who
       /\ over' = (a = "X")
Spec == Init /\ [][Next]_vars

Once == starts <= 1 /\ ends <= starts
Consistent == /\ (s.mpi = "none") = (starts = 0)
              /\ (s.mpi = "down") = (ends = 1)
Usable == s.live > 0 /\ ~over => s.mpi # "none"
\* a program that leaves MPI to the library never leaves it running
Tidy == over /\ who = "lib" /\ s.mng # "prog" => s.mpi = "down"
\* a program that started MPI and said nothing still has it when it ends
Own == over /\ who = "prog" /\ s.mng \in {"unset", "prog"} /\ s.mpi = "down" => ends = 1
=============================================================================

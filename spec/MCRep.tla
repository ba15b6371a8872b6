------------------------------- MODULE MCRep -------------------------------
(* C27, design of the replication tool: a file of a header of H bytes and a   *)
(* payload is copied in steps of a bounded memory; each step is divided into  *)
(* parts that start and end at block boundaries of the output, every          *)
(* repetition starts elsewhere relative to the blocks, so between two         *)
(* repetitions the processes exchange what they hold.                         *)
(* Parts are chosen as by util/sglobal.cc blockDecomp, processes      *)
(* next to each other exchange what the new parts need.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Decomp

CONSTANTS MaxF, MaxB, MaxP, MaxRep, H, MaxLim

VARIABLES fsz, bsz, P, rep, lim, i, j, held, out, phase
vars == <<fsz, bsz, P, rep, lim, i, j, held, out, phase>>

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b

\* the part [s, e) of process r (from 0) of sz bytes that start at off
Part(sz, off, r) ==
  LET first == off \div bsz
      n == ((off + sz + bsz - 1) \div bsz) - first
      o == Offset(IF sz = 0 THEN 0 ELSE n, P, r)
      c == Size(IF sz = 0 THEN 0 ELSE n, P, r)
  IN IF c = 0 THEN <<sz, sz>>
     ELSE <<Hi(off, (first + o) * bsz) - off, Lo(off + sz, (first + o + c) * bsz) - off>>

Step == P * lim * bsz
Now == IF i + Step < fsz THEN Step ELSE fsz - i          \* bytes of this step
\* what is repeated of this step: where it starts in the file, and how long it is
Start == IF i = 0 THEN H ELSE i
Len2 == IF i = 0 THEN Now - H ELSE Now

Init == /\ fsz \in H..MaxF /\ bsz \in H..MaxB /\ P \in 1..MaxP /\ rep \in 1..MaxRep /\ lim \in 1..MaxLim
        /\ i = 0 /\ j = 0 /\ phase = "read"
        /\ held = <<>> /\ out = <<>>

\* every process reads its part of the step and writes it at the same place
Read == /\ phase = "read" /\ i < fsz
        /\ LET part == [r \in 1..P |-> Part(Now, i, r - 1)] IN
           /\ out' = out @@ [x \in UNION {{i + y : y \in part[r][1]..(part[r][2] - 1)} : r \in 1..P} |-> x]
           \* the first holder leaves the header out: places count from the payload
           /\ held' = [r \in 1..P |-> LET s == i + part[r][1] t == i + part[r][2] IN
                                       [k \in 1..(t - Hi(s, Start)) |-> Hi(s, Start) + k - 1]]
        /\ phase' = "rep" /\ j' = 1
        /\ UNCHANGED <<fsz, bsz, P, rep, lim, i>>

\* one repetition: exchange to the parts of its place, then write
Rep == /\ phase = "rep" /\ j < rep
       /\ LET off == Start + (fsz - H) * j
              part == [r \in 1..P |-> Part(Len2, off, r - 1)]
              \* places (in the file) which the new part of r holds; each must be held by exactly one process
              new == [r \in 1..P |-> [k \in 1..(part[r][2] - part[r][1]) |-> Start + part[r][1] + k - 1]]
          IN /\ held' = new
             /\ out' = out @@ [x \in UNION {{off + y : y \in part[r][1]..(part[r][2] - 1)} : r \in 1..P} |->
                                 Start + (x - off)]
             /\ Assert({new[r][k] : <<r, k>> \in {<<r2, k2>> \in (1..P) \X (1..fsz) : k2 <= Len(new[r2])}}
                        = {held[r][k] : <<r, k>> \in {<<r2, k2>> \in (1..P) \X (1..fsz) : k2 <= Len(held[r2])}},
                       "the exchange wants data nobody holds, or loses some")
             \* the tool exchanges with the processes next to it only
             /\ Assert(\A r \in 1..P : \A k \in DOMAIN new[r] : \E s \in 1..P :
                         s \in (r - 1)..(r + 1) /\ \E q \in DOMAIN held[s] : held[s][q] = new[r][k],
                       "data is further away than the next process")
       /\ j' = j + 1
       /\ UNCHANGED <<fsz, bsz, P, rep, lim, i, phase>>

Next1 == /\ phase = "rep" /\ j >= rep /\ i' = i + Step /\ phase' = "read"
         /\ UNCHANGED <<fsz, bsz, P, rep, lim, j, held, out>>
Done == phase = "read" /\ i >= fsz /\ UNCHANGED vars

Next == Read \/ Rep \/ Next1 \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Rep \/ Next1)

\* the header, and the payload rep times
Wanted == [x \in 0..(H + (fsz - H) * rep - 1) |-> IF x < H THEN x ELSE H + ((x - H) % (fsz - H))]
Right == (phase = "read" /\ i >= fsz) => out = Wanted
Disjoint == \A r, s \in DOMAIN held : r # s =>
              {held[r][k] : k \in DOMAIN held[r]} \cap {held[s][k] : k \in DOMAIN held[s]} = {}
Ends == <>(phase = "read" /\ i >= fsz)
=============================================================================

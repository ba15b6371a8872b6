------------------------------- MODULE MCRes --------------------------------
(* C23: the resources of one process over a history of byte-level accesses   *)
(* in which any call may fail: the options' info object and its copy, the    *)
(* file, and a type per access through a view.  An access goes on after a    *)
(* failure (the others expect its calls) and gives back what it took.        *)
EXTENDS Integers, FiniteSets
CONSTANTS MAXACC, MAXFAIL

VARIABLES pc, held, freed, view, fails, acc, next
vars == <<pc, held, freed, view, fails, acc, next>>
\* next: number of the next type; a type is <<"type", n>>
Init == /\ pc = "opts" /\ held = {} /\ freed = {} /\ view = "bytes" /\ fails = 0 /\ acc = 0 /\ next = 0

Fail == fails < MAXFAIL
T == <<"type", next>>
Opts == <<"info", 0>>
Copy == <<"info", 1>>
File == <<"file", 0>>
Acquire(x, to, bad) == /\ (bad => Fail)
                       /\ fails' = fails + (IF bad THEN 1 ELSE 0)
                       /\ held' = IF bad THEN held ELSE held \cup {x}
                       /\ pc' = to
Release(x, to) == /\ held' = held \ {x} /\ freed' = IF x \in held THEN freed \cup {x} ELSE freed
                  /\ pc' = to
Next ==
  \/ /\ pc = "opts" /\ \E b \in BOOLEAN : Acquire(Opts, "dup", b) /\ UNCHANGED <<freed, view, acc, next>>
  \/ /\ pc = "dup" /\ \E b \in BOOLEAN : Acquire(Copy, "open", b) /\ UNCHANGED <<freed, view, acc, next>>
  \/ /\ pc = "open" /\ \E b \in BOOLEAN : Acquire(File, "optsend", b) /\ UNCHANGED <<freed, view, acc, next>>
  \/ /\ pc = "optsend" /\ Release(Opts, "ready") /\ UNCHANGED <<view, fails, acc, next>>
  \* an access; without a file nothing is asked of the MPI library
  \/ /\ pc = "ready" /\ acc < MAXACC
     /\ acc' = acc + 1
     /\ IF File \in held
        THEN \E b \in BOOLEAN : Acquire(T, "view", b)
        ELSE pc' = "ready" /\ UNCHANGED <<held, fails>>
     /\ UNCHANGED <<freed, view, next>>
  \/ /\ pc = "view"
     /\ \E b \in BOOLEAN :
          /\ b => Fail
          /\ fails' = fails + (IF b THEN 1 ELSE 0)
          /\ view' = IF b \/ T \notin held THEN view ELSE "type"
     /\ pc' = "io" /\ UNCHANGED <<held, freed, acc, next>>
  \/ /\ pc = "io" /\ \E b \in BOOLEAN : (b => Fail) /\ fails' = fails + (IF b THEN 1 ELSE 0)
     /\ pc' = "reset" /\ UNCHANGED <<held, freed, view, acc, next>>
  \/ /\ pc = "reset" /\ \E b \in BOOLEAN : (b => Fail) /\ fails' = fails + (IF b THEN 1 ELSE 0) /\ view' = IF b THEN view ELSE "bytes"
     /\ pc' = "free" /\ UNCHANGED <<held, freed, acc, next>>
  \/ /\ pc = "free" /\ Release(T, "ready") /\ next' = next + 1 /\ UNCHANGED <<view, fails, acc>>
  \/ /\ pc = "ready" /\ pc' = "close" /\ UNCHANGED <<held, freed, view, fails, acc, next>>
  \/ /\ pc = "close" /\ Release(File, "infofree") /\ UNCHANGED <<view, fails, acc, next>>
  \/ /\ pc = "infofree" /\ Release(Copy, "done") /\ UNCHANGED <<view, fails, acc, next>>
  \/ /\ pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* between operations an object holds the file and its info object, nothing else
Steady == pc = "ready" => held \subseteq {File, Copy}
Nothing == pc = "done" => held = {}
Once == held \cap freed = {}
=============================================================================

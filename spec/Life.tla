-------------------------------- MODULE Life --------------------------------
(* C29: who starts and ends MPI in a program that uses the library.          *)
(*   mpi   "none" not started, "up", "down" ended                            *)
(*   mng   who is in charge: "unset" nobody was asked, "lib", "prog"         *)
(*   used  an instance of the library has been created                       *)
EXTENDS Naturals, Sequences

L0 == [mpi |-> "none", mng |-> "unset", used |-> FALSE, live |-> 0]

\* the steps of a program, and what the library does by itself in them
CanDo(s, a) ==
  CASE a = "I" -> s.mpi = "none"
    [] a = "F" -> s.mpi = "up"
    [] a \in {"T", "M"} -> TRUE
    [] a \in {"N", "C"} -> s.mpi = "up" \/ (s.mpi = "none" /\ ~s.used /\ s.mng # "prog")
    [] a = "D" -> s.live > 0 /\ s.mpi = "up"
    [] a = "W" -> s.live > 0 /\ s.mpi = "up"
    [] a \in {"X", "R"} -> TRUE

\* <<calls of the library, state afterwards>>
Do(s, a) ==
  CASE a = "I" -> <<<<>>, [s EXCEPT !.mpi = "up"]>>
    [] a = "F" -> <<<<>>, [s EXCEPT !.mpi = "down"]>>
    [] a = "T" -> <<<<>>, [s EXCEPT !.mng = "lib"]>>
    [] a = "M" -> <<<<>>, [s EXCEPT !.mng = "prog"]>>
    [] a \in {"N", "C"} ->
         IF s.used THEN <<<<>>, [s EXCEPT !.live = @ + 1]>>
         ELSE LET starts == s.mpi = "none"
              IN <<IF starts THEN <<"init">> ELSE <<>>,
                   [mpi |-> "up", used |-> TRUE, live |-> s.live + 1,
                    mng |-> IF s.mng # "unset" THEN s.mng ELSE IF starts THEN "lib" ELSE "prog"]>>
    [] a = "D" -> <<<<>>, [s EXCEPT !.live = @ - 1]>>
    [] a = "W" -> <<<<>>, s>>
    [] a \in {"X", "R"} ->
         IF s.used /\ s.mng = "lib" /\ s.mpi = "up" THEN <<<<"fin">>, [s EXCEPT !.mpi = "down"]>>
         ELSE <<<<>>, s>>
=============================================================================

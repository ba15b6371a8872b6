------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Validation of many recorded traces in one TLC run.  Every trace is one  *)
(* initial state; each event is consumed by one step if the specification  *)
(* explains it (Why = ""), and the trace is rejected otherwise, with the   *)
(* first unexplained event and the clause it breaks.                       *)
(*                                                                         *)
(*   St0(t)      the initial specification state for trace t               *)
(*   Why(st, e)  "" if e is a step the specification allows in st, else    *)
(*               the name of the clause that forbids it                    *)
(*   Upd(st, e)  the state after e                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS St0(_), Why(_, _), Upd(_, _)

Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

VARIABLES sid, l, st, bad
vars == <<sid, l, st, bad>>

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ bad = ""
        /\ st = St0(Traces[sid])

\* events every specification knows: the job died (never allowed), the end
WhyE(s, e) == IF e.op = "ABORT" THEN "the processes did not complete: " \o e.kind
              ELSE Why(s, e)

Step == /\ bad = ""
        /\ l <= Len(Traces[sid].ev)
        /\ LET e == Traces[sid].ev[l]
               w == WhyE(st, e)
           IN IF w = ""
              THEN /\ l' = l + 1
                   /\ st' = IF e.op = "END" THEN st ELSE Upd(st, e)
                   /\ UNCHANGED bad
                   /\ IF l = Len(Traces[sid].ev)
                      THEN PrintT(<<"ACCEPT", Traces[sid].sid>>) ELSE TRUE
              ELSE /\ bad' = w
                   /\ UNCHANGED <<l, st>>
                   /\ PrintT(<<"REJECT", Traces[sid].sid, l, w>>)
        /\ UNCHANGED sid

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

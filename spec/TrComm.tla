------------------------------- MODULE TrComm -------------------------------
(* C24: an instance involves only the processes of its communicator.  Every   *)
(* communication step a process of group t.own takes in an operation of its   *)
(* instance is taken on that group's communicator, or on one that consists of *)
(* the process alone.  (What the operations deliver is judged by the          *)
(* specifications of the operations, group by group.)                         *)
EXTENDS TraceRun

CmSt0(t) == [own |-> t.own, n |-> 0]
Allowed(s, c) == c.m \in {s.own, "self"}
CmUpd(s, e) == [s EXCEPT !.n = @ + 1]
CmWhy(s, e) ==
  IF \E r \in DOMAIN e.calls : \E k \in DOMAIN e.calls[r] : ~Allowed(s, e.calls[r][k])
  THEN "a step was taken on another communicator than the instance's" ELSE ""
=============================================================================

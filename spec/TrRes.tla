------------------------------- MODULE TrRes --------------------------------
(* C23: resources of the MPI library.  live is what a process holds, own what *)
(* each object of the library accounts for.  Creating an object, and adding   *)
(* files to a set, may acquire; any other operation may acquire only the      *)
(* first time it is done on an object; releasing an object gives back exactly *)
(* what it accounts for; at the end nothing is held.                          *)
(* A state is <<own, live, seen>>, own and live per process.                  *)
EXTENDS TraceRun

Kinds == {"file", "type", "info", "win", "req", "comm", "op"}
Zero == [k \in Kinds |-> 0]
Opens == {"dopen", "wopen", "ropen", "sopen", "vnew"}
Closes == {"dclose", "wclose", "rclose", "sclose", "vfree"}
Grows == {"sadd"}

RsSt0(t) == [own |-> <<>>, live |-> <<>>, seen |-> {}]
Ranks(e) == DOMAIN e.lb
Minus(a, b) == [k \in Kinds |-> a[k] - b[k]]
Plus(a, b) == [k \in Kinds |-> a[k] + b[k]]
Delta(e, r) == Minus(e.la[r], e.lb[r])
Obj(e) == IF e.o = "" THEN "(instance)" ELSE e.o
Own(s, o, r) == IF o \in DOMAIN s.own THEN s.own[o][r] ELSE Zero
Drop(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
Sig(e) == <<Obj(e), e.sig>>

RsUpd(s, e) ==
  LET o == Obj(e)
      with == (o :> [r \in Ranks(e) |-> Plus(Own(s, o, r), Delta(e, r))]) @@ s.own
  IN [own |-> IF e.op \in Closes THEN Drop(s.own, o) ELSE with,
      live |-> e.la,
      seen |-> IF e.op \in Grows \cup Closes THEN {x \in s.seen : x[1] # o} ELSE s.seen \cup {Sig(e)}]

RsWhy(s, e) ==
  IF e.op = "END" THEN
    IF \E r \in DOMAIN e.live : e.lerr[r] # <<>> THEN "a resource was used or released after its release"
    ELSE IF \E r \in DOMAIN e.live : \E k \in Kinds : e.live[r][k] # 0 THEN "a resource is still held at the end"
    ELSE IF \E r \in DOMAIN e.live : e.left[r] # 0 THEN "a message was never received"
    ELSE ""
  ELSE IF \E r \in Ranks(e) : e.lerr[r] # <<>> THEN "a resource was used or released after its release"
  ELSE IF s.live # <<>> /\ \E r \in Ranks(e) : e.lb[r] # s.live[r] THEN "(harness) resources changed between operations"
  ELSE IF \E r \in Ranks(e) : Delta(e, r)["req"] # 0 THEN "a request outlives its operation"
  ELSE IF e.op \in Opens \cup Grows THEN
    IF \E r \in Ranks(e) : \E k \in Kinds : Delta(e, r)[k] < 0 THEN "creating an object released another's resource" ELSE ""
  ELSE IF e.op \in Closes THEN
    IF \E r \in Ranks(e) : \E k \in Kinds : Delta(e, r)[k] # -Own(s, Obj(e), r)[k]
    THEN "releasing an object did not give back exactly its resources" ELSE ""
  ELSE IF \E r \in Ranks(e) : \E k \in Kinds : Delta(e, r)[k] + Own(s, Obj(e), r)[k] < 0
       THEN "an operation released another object's resource"
  ELSE IF Sig(e) \in s.seen /\ \E r \in Ranks(e) : \E k \in Kinds : Delta(e, r)[k] > 0
       THEN "repeating an operation holds more resources"
  ELSE ""
=============================================================================

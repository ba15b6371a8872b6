------------------------------ MODULE TrHandle ------------------------------
(* C25: recorded histories of C handles against Handle.tla.  Of every shared  *)
(* object (a PIOL, a rule) the driver sees whether it is still alive.         *)
EXTENDS TraceRun, Handle

HdSt0(t) == [h |-> H0, shared |-> {}, P |-> t.P, val |-> <<>>]
Ref(s, e) == IF "from" \in DOMAIN e THEN {s.h.hs[e.from]} ELSE {}
After(s, e) ==
  CASE e.op = "hnew" -> HNew(s.h, e.h, e.h, Ref(s, e))
    [] e.op = "hdel" -> HDel(s.h, e.h)
    [] OTHER -> s.h
Sh(s, e) == IF e.op = "hnew" /\ e.k \in {"piol", "rule"} THEN s.shared \cup {e.h} ELSE s.shared
HdUpd(s, e) ==
  IF e.op = "fput" THEN s
  ELSE [s EXCEPT !.h = After(s, e), !.shared = Sh(s, e),
        !.val = IF e.op = "hnew" THEN (e.h :> [k |-> e.k, x |-> e.x]) @@ @ ELSE @]
HandleV(s, e, r) ==
  LET v == s.val[e.h]
  IN CASE v.k = "piol" -> (r - 1) + 100 * (s.P - 1)
       [] v.k \in {"writer", "set"} -> 0
       [] OTHER -> v.x
HdWhy(s, e) ==
  IF e.op \in {"fput", "END"} THEN ""
  ELSE IF \E r \in DOMAIN e.v : {e.v[r].alive[k] : k \in DOMAIN e.v[r].alive} # (DOMAIN After(s, e).objs) \cap Sh(s, e)
  THEN "an object was kept or given up at the wrong time"
  ELSE IF e.op = "huse" /\ \E r \in DOMAIN e.v : e.v[r].x # HandleV(s, e, r)
  THEN "an object used through its handle does not answer as it should"
  ELSE ""
=============================================================================

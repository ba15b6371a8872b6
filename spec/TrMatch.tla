------------------------------- MODULE TrMatch ------------------------------
(* C03: in every operation all processes take the same collective steps in   *)
(* the same order, and every message one sends another receives, in the      *)
(* order of sending.  (The driver reports a process that would wait for ever *)
(* as an abort; which steps an operation takes is not prescribed.)           *)
EXTENDS TraceRun

MtSt0(t) == [n |-> 0]
MtUpd(s, e) == s
Local == {"Send", "Recv", "File_get_size", "File_read_at", "File_write_at", "File_read", "File_write",
          "Win_lock", "Win_unlock", "Win_lock_all", "Win_unlock_all"}
Ranks(e) == DOMAIN e.calls
NameOf(c) == <<c.c, c.m>>
Shared(q) == [k \in DOMAIN q |-> NameOf(q[k])]
Collectives(e, r) == Shared(SelectSeq(e.calls[r], LAMBDA c : c.c \notin Local /\ c.m # "self"))
Count(e, kind, r, p) == Cardinality({k \in DOMAIN e.calls[r] : e.calls[r][k].c = kind /\ e.calls[r][k].x = p})

MtWhy(s, e) ==
  IF \E r \in Ranks(e) : Collectives(e, r) # Collectives(e, 1)
  THEN "processes took different collective steps"
  ELSE IF e.op # "END" /\ \E r, p \in Ranks(e) : Count(e, "Send", r, p - 1) # Count(e, "Recv", p, r - 1)
  THEN "messages sent and received differ"
  ELSE IF e.op = "END" /\ \E r \in DOMAIN e.left : e.left[r] # 0 THEN "a message was never received"
  ELSE ""
=============================================================================

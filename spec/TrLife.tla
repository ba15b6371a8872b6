------------------------------- MODULE TrLife -------------------------------
(* Whole programs against Life.tla: in every step, on every process, the     *)
(* library makes exactly the calls it should, and MPI is as it should be.    *)
EXTENDS TraceRun, Life
LfSt0(t) == L0
Seen(m) == CASE m = "none" -> <<0, 0>> [] m = "up" -> <<1, 0>> [] m = "down" -> <<1, 1>>
LfUpd(s, e) == IF e.op = "END" THEN s ELSE Do(s, e.op)[2]
LfWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF ~CanDo(s, e.op) THEN "driver: not a step of a program"
  ELSE LET d == Do(s, e.op) IN
  IF \E r \in DOMAIN e.v : e.v[r].lib # d[1] THEN
    IF \E r \in DOMAIN e.v : Len(e.v[r].lib) > Len(d[1]) THEN "the library started or ended MPI without being in charge"
    ELSE "the library did not start or end MPI"
  ELSE IF \E r \in DOMAIN e.v : e.v[r].mpi # Seen(d[2].mpi) THEN "MPI is not in the state it should be in"
  ELSE IF \E r \in DOMAIN e.v : e.v[r].ok # 1 THEN "an instance did not work"
  ELSE ""
=============================================================================

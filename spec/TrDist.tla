------------------------------- MODULE TrDist -------------------------------
(* Recorded collective operations against Dist.                               *)
(* state: g files and readers (TrSegy), vec handle -> vector                  *)
EXTENDS TraceRun, Dist, SegyFile

DiSt0(t) == [f |-> <<>>, r |-> <<>>, vec |-> <<>>]
DiUpd(s, e) ==
  CASE e.op = "fput"   -> [s EXCEPT !.f = (e.name :> PutFile(e)) @@ s.f]
    [] e.op = "ropen"  -> [s EXCEPT !.r = (e.o :> e.name) @@ s.r]
    [] e.op = "vnew"   -> [s EXCEPT !.vec = (e.o :> [n |-> e.n, val |-> <<>>]) @@ s.vec]
    [] e.op = "vphase" -> [s EXCEPT !.vec[e.o] = AllPhase(s.vec[e.o], e.a, 1)]
    [] OTHER -> s
DiFile(s, e) == s.f[s.r[e.o]]
DiWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF \E r \in DOMAIN e.v : "err" \in DOMAIN e.v[r] /\ e.v[r].err = 1 THEN "error reported without a failure"
  ELSE
  CASE e.op \in {"fput", "ropen", "rclose", "vfree"} -> ""
    [] e.op = "psort"  -> SortWhy(e)
    [] e.op = "cmp"    -> CmpWhy(e)
    [] e.op = "order"  -> OrderWhy(DiFile(s, e), e)
    [] e.op = "minmax" -> MmWhy(e)
    [] e.op = "gath"   -> GathWhy(DiFile(s, e), e)
    [] e.op = "vnew"   -> IF \E r \in DOMAIN e.v : e.v[r].n # e.n THEN "wrong size of the vector" ELSE ""
    [] e.op = "vphase" -> IF \E r \in DOMAIN e.v : ~PhaseOk(s.vec[e.o], e.a[r].acts, e.v[r].r)
                          THEN "a load did not return what was stored" ELSE ""
    [] OTHER -> "unknown event"
=============================================================================

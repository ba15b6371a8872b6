------------------------------- MODULE TrFlow -------------------------------
(* Recorded histories of file sets against Flow.                              *)
(* state: f files, set handle -> set, img/ids the images of a chain, out the  *)
(* output files that are there                                                *)
EXTENDS TraceRun, Flow

FlSt0(t) == [f |-> <<>>, set |-> <<>>, img |-> <<>>, ids |-> <<>>, out |-> <<>>, err |-> 0]
Ranks(e) == 1..Len(e.v)
\* the error state is sticky; only a refused sort may set it
Sorts(e) == e.op \in {"sout", "sclose"}
ErrOf(s, e) == IF Sorts(e) /\ s.set[e.o].pend /\ Refused(s.f, s.set[e.o], Len(e.v)) THEN 1 ELSE s.err
Chain(s, e) == [s EXCEPT !.set[e.o].ids = Append(@, e.id)]

\* a destructor writes the output of a set that was given a prefix and no explicit output
Pending(set) == set.outfix # ""

FlUpd0(s, e) ==
  CASE e.op = "fput"  -> [s EXCEPT !.f = (e.name :> PutFile(e)) @@ s.f]
    [] e.op = "sopen" -> [s EXCEPT !.set = (e.o :> NewSet(e.names, IF "rule" \in DOMAIN e THEN e.rule ELSE <<MCopy>>, e.outfix)) @@ s.set]
    [] e.op = "sadd"  -> [s EXCEPT !.set[e.o].files = @ \o e.names]
    [] e.op = "stext" -> [s EXCEPT !.set[e.o].text = e.key]
    [] e.op = "ssort" -> [s EXCEPT !.set[e.o].pend = TRUE, !.set[e.o].sort = IF "by" \in DOMAIN e THEN [k |-> "by", by |-> e.by]
                                                     ELSE [k |-> "type", type |-> e.type]]
    [] e.op \in {"staper", "sagc", "sfilt"} -> Chain(s, e)
    [] e.op = "simg"  -> [s EXCEPT !.img = e.v[1].img, !.ids = e.ids]
    [] e.op = "sout"  -> [s EXCEPT !.set[e.o].ids = <<>>, !.set[e.o].outfix = "", !.set[e.o].pend = FALSE, !.out = e.v[1].files]
    [] e.op = "sclose" -> [s EXCEPT !.out = e.v[1].files, !.set = [x \in (DOMAIN s.set) \ {e.o} |-> s.set[x]]]
    [] OTHER -> s

FlUpd(s, e) == LET n == FlUpd0(s, e) IN [n EXCEPT !.err = ErrOf(s, e)]

FlWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF \E r \in Ranks(e) : e.v[r].err # ErrOf(s, e)
       THEN IF ErrOf(s, e) = 0 THEN "error reported without a failure" ELSE "a refused sort was not reported"
  ELSE
  CASE e.op \in {"fput", "sopen", "sadd", "stext", "ssort", "staper", "sagc", "sfilt", "simg"} -> ""
    [] e.op = "smm" -> SetMmWhy(s.f, s.set[e.o], e)
    \* a failure has been reported: the output is not relied on
    [] e.op \in {"sout", "sclose"} /\ ErrOf(s, e) # 0 -> ""
    [] e.op = "sout" ->
         IF s.set[e.o].ids # <<>> /\ s.set[e.o].ids # s.ids THEN "(harness) no image of this chain"
         ELSE IF \E r \in Ranks(e) : e.v[r].names # e.v[1].names THEN "processes were given different names"
         ELSE OutWhy(s.f, s.set[e.o], s.img, e.v[1].files, e.v[1].names, e.v[1].hasnames, Len(e.v))
    [] e.op = "sclose" ->
         IF Pending(s.set[e.o])
         THEN IF s.set[e.o].ids # <<>> /\ s.set[e.o].ids # s.ids THEN "(harness) no image of this chain"
              ELSE OutWhy(s.f, s.set[e.o], s.img, e.v[1].files, <<>>, 0, Len(e.v))
         ELSE IF e.v[1].files # s.out THEN "releasing a set changed the files it had written" ELSE ""
    [] OTHER -> "unknown event"
=============================================================================

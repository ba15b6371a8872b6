------------------------------ MODULE TrRadon -------------------------------
(* C17: recorded conversions of radon gathers.                                *)
(* state: f files, set handle -> set (angle: the conversion asked for), plain *)
(* the last output without further operations, img what those make of it      *)
EXTENDS TraceRun, Radon

RaSt0(t) == [f |-> <<>>, set |-> <<>>, plain |-> <<>>, img |-> <<>>, err |-> 0]
Ranks(e) == 1..Len(e.v)
NoAngle == [n |-> 0]
AngSet(names) == NewSet(names, <<MCopy>>, "") @@ [angle |-> NoAngle]
Conv(e) == [vm |-> e.vm, vel |-> e.vel, bin |-> e.bin, n |-> e.n, half |-> e.half]
Named(fs, nm) == CHOOSE j \in DOMAIN fs : fs[j].name = nm
Has(fs, nm) == \E j \in DOMAIN fs : fs[j].name = nm

RaUpd(s, e) ==
  CASE e.op = "fput"  -> [s EXCEPT !.f = (e.name :> PutFile(e)) @@ s.f]
    [] e.op = "sopen" -> [s EXCEPT !.set = (e.o :> AngSet(e.names)) @@ s.set]
    [] e.op = "sadd"  -> [s EXCEPT !.set[e.o].files = @ \o e.names]
    [] e.op = "ssort" -> [s EXCEPT !.set[e.o].sort = [k |-> "type", type |-> e.type]]
    [] e.op = "sangle" -> [s EXCEPT !.set[e.o].angle = Conv(e)]
    [] e.op = "staper" -> [s EXCEPT !.set[e.o].ids = Append(@, e.id)]
    [] e.op = "simg"  -> [s EXCEPT !.img = e.v[1].img]
    [] e.op = "sout" /\ s.set[e.o].ids = <<>> ->
         [s EXCEPT !.plain = IF Has(e.v[1].files, e.want) THEN e.v[1].files[Named(e.v[1].files, e.want)] ELSE <<>>]
    [] OTHER -> s

OutputWhy(s, set, e) ==
  LET fs == e.v[1].files IN
  IF ~Has(fs, e.want) \/ Len(fs) # 1 THEN "the conversion wrote other files"
  ELSE LET out == fs[Named(fs, e.want)] IN
       IF "ns" \notin DOMAIN out THEN "the output is not a SEG-Y file"
       ELSE IF set.ids = <<>> THEN AngleWhy(s.f, set, out, Len(e.v))
       ELSE AfterWhy(s.plain, s.img["out/x.segy"], out)

RaWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF \E r \in Ranks(e) : e.v[r].err # 0 THEN "error reported without a failure"
  ELSE
  CASE e.op \in {"fput", "sopen", "sadd", "ssort", "sangle", "staper", "simg", "sclose"} -> ""
    [] e.op = "sout" -> OutputWhy(s, s.set[e.o], e)
    [] e.op = "tool" -> IF \E r \in Ranks(e) : e.v[r].rc # 0 THEN "a tool returned a failure"
                        ELSE OutputWhy(s, [AngSet(e.names) EXCEPT !.angle = Conv(e)], e)
    [] e.op = "rmodel" ->
         LET f == s.f[e.from]
             vm == s.f[e.vm]
             gs == GathersOf([i \in DOMAIN f.tr |-> <<Value(f.tr[i].h, 26), Value(f.tr[i].h, 27)>>])
             ask(r) == IF e.list = 1 THEN e.a[r].offs ELSE [k \in 1..e.a[r].n |-> e.a[r].off + k - 1]
             row(r, k) == vm.tr[ModelTrace(vm, gs[ask(r)[k] + 1].line)].s
         IN IF \E r \in Ranks(e) : e.v[r].G # Len(gs) THEN "the gathers were counted wrongly"
            ELSE IF \E r \in Ranks(e) : Len(e.v[r].rows) # Len(ask(r)) THEN "the model was not read for every gather"
            ELSE IF \E r \in Ranks(e) : \E k \in DOMAIN ask(r) : e.v[r].rows[k] # row(r, k)
            THEN "a gather was given another trace of the model"
            ELSE ""
    [] OTHER -> "unknown event"
=============================================================================

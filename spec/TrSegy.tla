------------------------------- MODULE TrSegy -------------------------------
(* Recorded histories of SEG-Y writers and readers against SegyFile.         *)
(* state: f name -> file, w writer handle -> writer, r reader handle -> name *)
EXTENDS TraceRun, SegyFile

SgSt0(t) == [f |-> <<>>, w |-> <<>>, r |-> <<>>, err |-> 0]
Ranks(e) == 1..Len(e.v)
AbsS(x) == IF x < 0 THEN -x ELSE x
\* what cannot be stored is refused; an error stays
Refused(s, e) == CASE e.op = "wns"  -> e.n > 32767
                   [] e.op = "winc" -> e.us = 0 \/ AbsS(e.us) > 32767
                   [] e.op = "wtr"  -> ~s.w[e.o].set      \* no number of samples was set
                   [] OTHER -> FALSE
ErrAfter(s, e) == IF Refused(s, e) THEN 1 ELSE s.err
ErrOk(s, e) == \A r \in Ranks(e) : e.v[r].err = ErrAfter(s, e)
Drop(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

SgDo(s, e) ==
  CASE e.op = "put"    -> [s EXCEPT !.f = (e.name :> JunkFile) @@ s.f]
    [] e.op = "fput"   -> [s EXCEPT !.f = (e.name :> PutFile(e)) @@ s.f]
    [] e.op = "wopen"  -> [s EXCEPT !.w = (e.o :> OpenW(e.name, s.f)) @@ s.w]
    [] e.op = "wtext"  -> [s EXCEPT !.w[e.o].text = e.key]
    [] e.op = "wns"    -> IF Refused(s, e) THEN s ELSE [s EXCEPT !.w[e.o].ns = e.n, !.w[e.o].set = TRUE]
    [] e.op = "wnt"    -> [s EXCEPT !.w[e.o].nt = e.n]
    [] e.op = "winc"   -> IF Refused(s, e) THEN s ELSE [s EXCEPT !.w[e.o].inc = e.us]
    [] e.op = "wtr"    -> [s EXCEPT !.w[e.o] = WriteTr(s.w[e.o], e, 1)]
    [] e.op = "wclose" ->
         \* after an error nothing is completed: no size, no file header
         [s EXCEPT !.f = IF s.err = 0 THEN (s.w[e.o].name :> Closed(s.w[e.o])) @@ s.f
                         ELSE IF DOMAIN s.w[e.o].ent = {} THEN s.f ELSE Drop(s.f, s.w[e.o].name),
                   !.w = Drop(s.w, e.o)]
    [] e.op = "ropen"  -> [s EXCEPT !.r = (e.o :> e.name) @@ s.r]
    [] e.op = "rclose" -> [s EXCEPT !.r = Drop(s.r, e.o)]
    [] OTHER -> s
SgUpd(s, e) == [SgDo(s, e) EXCEPT !.err = ErrAfter(s, e)]

FcatWhy(f, v) ==
  IF v.exists # 1 THEN "no output file"
  ELSE IF v.size # f.size THEN "wrong file size"
  ELSE IF v.text # f.text THEN "wrong text header"
  ELSE IF v.ns # f.ns THEN "wrong number of samples in the file header"
  ELSE IF v.inc # f.inc THEN "wrong interval in the file header"
  ELSE IF v.fmt # f.fmt THEN "wrong number format in the file header"
  ELSE IF {v.bin[k] : k \in DOMAIN v.bin} # f.bin THEN "other words of the file header differ"
  ELSE IF Len(v.trc) # Len(f.tr) THEN "wrong number of traces"
  ELSE IF \E t \in DOMAIN f.tr : ~HdrMatches(v.hdr[t], f.tr[t].h) THEN "stored trace header differs"
  ELSE IF \E t \in DOMAIN f.tr : f.tr[t].k /\ v.trc[t] # f.tr[t].s THEN "stored samples differ"
  ELSE ""

RopenWhy(f, v) ==
  IF v.ns # f.ns THEN "reopened file reports another number of samples"
  ELSE IF v.nt # Len(f.tr) THEN "reopened file reports another number of traces"
  ELSE IF v.inc # f.inc THEN "reopened file reports another interval"
  ELSE IF v.text # f.text THEN "reopened file reports another text"
  ELSE ""

RtrWhy(f, e) ==
  IF \E r \in Ranks(e) : e.v[r].guard # 1 THEN "read changed something outside its place"
  ELSE IF e.what # "prm" /\ \E r \in Ranks(e) : ~ReadTrcOk(f, e, e.a[r], e.v[r])
       THEN "read delivered other samples"
  ELSE IF e.what # "trc" /\ \E r \in Ranks(e) : ~ReadPrmOk(f, e, e.a[r], e.v[r])
       THEN "read delivered other headers"
  ELSE ""

WhyOpen(f, e) == LET wrong == {r \in Ranks(e) : RopenWhy(f, e.v[r]) # ""} IN
                 IF wrong = {} THEN "" ELSE RopenWhy(f, e.v[CHOOSE r \in wrong : TRUE])

SgWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF ~ErrOk(s, e) THEN IF ErrAfter(s, e) = 0 THEN "error reported without a failure" ELSE "what the file cannot store was not reported"
  ELSE
  CASE e.op \in {"put", "fput", "wopen", "wtext", "wns", "wnt", "winc", "wclose", "rclose"} -> ""
    [] e.op = "wtr" -> IF \A r \in Ranks(e) : e.v[r].same = 1 THEN ""
                       ELSE "write changed the caller's samples or header values"
    [] e.op = "ropen" -> WhyOpen(s.f[e.name], e)
    [] e.op = "rtr" -> RtrWhy(s.f[s.r[e.o]], e)
    [] e.op = "fcat" -> FcatWhy(s.f[e.name], e.v[1])
    [] OTHER -> "unknown event"
=============================================================================

------------------------------- MODULE TrTool -------------------------------
(* C27: what the command-line tools make of files.                            *)
(*   makerep      the header and the traces, rep times                        *)
(*   minmax       the traces attaining the extrema, in a fixed order          *)
(*   verifysort   succeeds exactly for files in order                         *)
(*   filemake     a file of a fixed pattern, however the work is divided      *)
(*   traceanalysis, assess   what they print                                  *)
(* (the tools that sort and concatenate are validated against Flow)           *)
EXTENDS TraceRun, Dist, SegyFile

TlSt0(t) == [f |-> <<>>, mm |-> <<>>]
Ranks(e) == 1..Len(e.v)

\* ---- replication ----------------------------------------------------------------
RECURSIVE Times(_, _)
Times(tr, n) == IF n = 0 THEN <<>> ELSE tr \o Times(tr, n - 1)
Repeated(f, n) == [f EXCEPT !.tr = Times(f.tr, n), !.size = FileSize(n * Len(f.tr), f.ns)]

\* ---- the file maker: a pattern of traces and samples that rises and falls --------
AbsT(x) == IF x < 0 THEN -x ELSE x
Bend(half, x) == half - AbsT(x - half)
Pattern(nt, t) ==      \* t from 0; coordinates in 1/10000
  LET k == Bend(nt \div 2, t)
      c(base) == (base + k) * 10000
  IN (20 :> c(1600)) @@ (21 :> c(2400)) @@ (22 :> c(100000)) @@ (24 :> c(10000)) @@ (25 :> c(4000))
     @@ (26 :> (2400 + k)) @@ (27 :> (1600 + k)) @@ (5 :> t) @@ (14 :> 0)
\* 3000000 + k is out of range in 1/10000: it is compared as stored, see MadeHdr
QuarterOf(nt, ns, t, j) == LET n == nt * ns IN Bend(2 * n, 4 * (t * ns + j)) - n

MadeHdr(nt, t, words) ==
  LET g(w) == words[w + 1]
      p == Pattern(nt, t)
      sc == g(W(71))
  IN /\ Len(words) = 120
     /\ \A m \in DOMAIN p : Decode(g, m) = p[m]
     /\ sc \in {0, 1}
     /\ Int32(g(W(85)), g(W(85) + 1)) = 3000000 + Bend(nt \div 2, t)

MadeWhy(e) ==
  LET v == e.v[1] nt == e.made.nt ns == e.made.ns IN
  IF v.exists # 1 THEN "the file maker made no file"
  ELSE IF v.size # FileSize(nt, ns) \/ v.ns # ns \/ v.inc # e.made.inc \/ v.fmt # 5 \/ Len(v.hdr) # nt
       THEN "the file made has another geometry"
  ELSE IF v.text # e.made.key THEN "the file made has another text"
  ELSE IF \E t \in 1..nt : ~MadeHdr(nt, t - 1, v.hdr[t]) THEN "a trace made has another header"
  ELSE IF \E t \in 1..nt : v.lens[t] # ns \/ \E q \in DOMAIN v.q[t] : v.q[t][q][2] # QuarterOf(nt, ns, t - 1, v.q[t][q][1])
       THEN "a trace made has other samples"
  ELSE ""

\* ---- extrema ----------------------------------------------------------------------
MmRule == {20, 21, 22, 23, 24, 25, 14, 26, 27, 5}
XtrWhy(f, v) ==
  LET val(t, m) == Value(f.tr[t].h, m)
      ts == DOMAIN f.tr
      m(k) == 20 + ((k - 1) \div 2)
      best(k, t) == IF k % 2 = 1 THEN \A u \in ts : val(t, m(k)) <= val(u, m(k))
                    ELSE \A u \in ts : val(t, m(k)) >= val(u, m(k))
      says(k, t) == HdrMatches(v.hdr[k], [k |-> TRUE, raw |-> <<>>,
                                          ov |-> [x \in MmRule |-> IF x = 5 THEN t - 1 ELSE val(t, x)]])
  IN IF v.exists # 1 THEN "no file of extrema"
     ELSE IF v.size # FileSize(12, 1) \/ v.ns # 1 \/ Len(v.trc) # 12 THEN "the file of extrema has another geometry"
     ELSE IF v.inc # f.inc THEN "the file of extrema has another interval"
     ELSE IF \E k \in 1..12 : v.trc[k] # <<1065353216>> THEN "a trace of extrema has another sample"
     ELSE IF \E k \in 1..12 : ~\E t \in ts : best(k, t) /\ says(k, t) THEN "a trace of extrema does not attain its extremum"
     ELSE ""

\* ---- what the tools print -----------------------------------------------------------
VerWhy(s, e) ==
  LET f == s.f[e.in] all == \A r \in Ranks(e) : e.v[r].success = 1 IN
  IF all # Ordered(e.type, f, 0, Len(f.tr)) THEN
       IF all THEN "an unordered file was reported as ordered" ELSE "an ordered file was reported as unordered"
  ELSE IF \E r \in Ranks(e) : e.v[r].success + e.v[r].failure # 1 THEN "a process reported neither or both" ELSE ""

SeenWhy(s, e) ==
  LET h == s.f[e.in].tr[e.tn + 1].h p == e.v[1].seen IN
  IF \E q \in DOMAIN e.metas : p[q] # Value(h, e.metas[q]) THEN "other values of a trace were printed" ELSE ""
FoundWhy(s, e) ==
  LET want == [q \in DOMAIN e.names |-> LET f == s.f[e.names[q]] IN [name |-> e.names[q], ns |-> f.ns, nt |-> Len(f.tr), inc |-> f.inc]] IN
  IF \E r \in Ranks(e) : e.v[r].found # want THEN "other files, or other facts about them, were printed" ELSE ""

TlUpd(s, e) ==
  CASE e.op = "fput" -> [s EXCEPT !.f = (e.name :> PutFile(e)) @@ s.f]
    [] e.op = "tool" /\ e.t = "makerep" -> [s EXCEPT !.f = (e.to :> Repeated(s.f[e.in], e.rep)) @@ s.f]
    [] OTHER -> s

FileWhy(f, v) ==
  IF v.exists # 1 THEN "no output file"
  ELSE IF v.size # f.size THEN "wrong file size"
  ELSE IF v.text # f.text THEN "wrong text header"
  ELSE IF v.ns # f.ns \/ v.inc # f.inc \/ v.fmt # f.fmt THEN "wrong facts in the file header"
  ELSE IF Len(v.trc) # Len(f.tr) THEN "wrong number of traces"
  ELSE IF \E t \in DOMAIN f.tr : ~HdrMatches(v.hdr[t], f.tr[t].h) THEN "stored trace header differs"
  ELSE IF \E t \in DOMAIN f.tr : v.trc[t] # f.tr[t].s THEN "stored samples differ"
  ELSE ""

TlWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF e.op = "tool" /\ \E r \in Ranks(e) : e.v[r].rc # 0 THEN "a tool returned a failure"
  ELSE
  CASE e.op \in {"fput", "put"} -> ""
    [] e.op = "tool" /\ e.t \in {"makerep", "minmax", "filemake"} -> ""
    [] e.op = "tool" /\ e.t = "verifysort" -> VerWhy(s, e)
    [] e.op = "tool" /\ e.t = "traceanalysis" -> SeenWhy(s, e)
    [] e.op = "tool" /\ e.t = "assess" -> FoundWhy(s, e)
    [] e.op = "fcat" /\ "made" \in DOMAIN e -> MadeWhy(e)
    [] e.op = "fcat" /\ "mm" \in DOMAIN e -> XtrWhy(s.f[e.mm], e.v[1])
    [] e.op = "fcat" -> FileWhy(s.f[e.name], e.v[1])
    [] OTHER -> "unknown event"
=============================================================================

------------------------------ MODULE SegyFile ------------------------------
(* C05-C07: SEG-Y files as sequences of traces, and what opening, writing,   *)
(* closing and reading mean.                                                 *)
(*   file    [raw: not a SEG-Y file, ns, inc, text, fmt, tr]                 *)
(*   trace   [h: header (SegyHdr), k: samples known?, s: samples]            *)
(*   writer  [name, ns, inc, text, nt, tr, old]                              *)
EXTENDS SegyHdr, IBM

MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b
RECURSIVE MaxSeq(_, _)
MaxSeq(s, k) == IF k > Len(s) THEN 0 ELSE MaxN(s[k], MaxSeq(s, k + 1))

FileSize(nt, ns) == 3600 + nt * (240 + 4 * ns)
NoTrace == [h |-> NoHdr, k |-> FALSE, s |-> <<>>]

JunkFile == [raw |-> TRUE, bin |-> {}, ns |-> 0, inc |-> 0, text |-> "", fmt |-> 0, tr |-> <<>>, size |-> 0]

\* the other words set in the header of a file the library wrote (place in the file,
\* value): metres, revision 1.0, all traces of one length; no further text headers
OwnBin == {<<3255, 1>>, <<3501, 256>>, <<3503, 1>>}

PutFile(e) == [raw |-> FALSE, bin |-> {}, ns |-> e.ns, inc |-> e.inc, text |-> e.key, fmt |-> e.fmt,
               size |-> FileSize(Len(e.traces), e.ns) + e.extra,
               tr |-> [j \in 1..Len(e.traces) |->
                         [h |-> RawHdr(e.traces[j].h), k |-> TRUE, s |-> e.traces[j].t]]]

\* ---- writing --------------------------------------------------------------
OpenW(name, files) ==
  [name |-> name, ns |-> 0, set |-> FALSE, inc |-> 0, text |-> "0:811c9dc5", nt |-> 0,
   old |-> IF name \in DOMAIN files THEN files[name] ELSE JunkFile,
   ent |-> <<>>]        \* trace number -> trace written through this writer

\* the trace numbers (from 1) of one process's request, in data order
TargetsOf(kind, a) ==
  IF kind = "contig" THEN [j \in 1..a.n |-> a.off + j]
  ELSE [j \in 1..Len(a.offs) |-> a.offs[j] + 1]

Base(w, t) == IF t \in DOMAIN w.ent THEN w.ent[t]
              ELSE IF ~w.old.raw /\ w.old.ns = w.ns /\ t <= Len(w.old.tr) THEN w.old.tr[t]
              ELSE NoTrace

PutTrace(w, e, a, j, t) ==
  LET b == Base(w, t) IN
  [h |-> IF e.what = "trc" THEN b.h ELSE HdrOfRow(e.rule, a.prm[j]),
   k |-> IF e.what = "prm" THEN b.k ELSE TRUE,
   s |-> IF e.what = "prm" THEN b.s ELSE a.trc[j]]

\* one process's part of a collective write
WriteOne(w, e, a) ==
  LET ts == TargetsOf(e.kind, a)
      dom == {ts[j] : j \in DOMAIN ts}
      last(t) == CHOOSE j \in DOMAIN ts : ts[j] = t
  IN [w EXCEPT !.ent = [t \in dom \cup DOMAIN w.ent |->
                          IF t \in dom THEN PutTrace(w, e, a, last(t), t) ELSE w.ent[t]],
               !.nt = MaxN(w.nt, MaxSeq(ts, 1))]
RECURSIVE WriteTr(_, _, _)
WriteTr(w, e, r) == IF r > Len(e.a) THEN w ELSE WriteTr(WriteOne(w, e, e.a[r]), e, r + 1)

Closed(w) ==
  [raw |-> FALSE, ns |-> w.ns, inc |-> w.inc, text |-> w.text, fmt |-> 5, bin |-> OwnBin,
   size |-> FileSize(w.nt, w.ns), tr |-> [t \in 1..w.nt |-> Base(w, t)]]

\* ---- reading --------------------------------------------------------------
\* the trace numbers delivered to one process; 0 = nothing there, leave untouched
Delivered(f, kind, a) ==
  IF kind = "contig"
  THEN [j \in 1..a.n |-> IF a.off + j <= Len(f.tr) THEN a.off + j ELSE 0]
  ELSE [j \in 1..Len(a.offs) |-> a.offs[j] + 1]

Sample(f, w) == IF f.fmt = 1 THEN FromIBM(w) ELSE w
SamplesMatch(row, f, tr) ==
  \/ ~tr.k
  \/ /\ Len(row) = f.ns
     /\ \A q \in 1..f.ns : row[q] = Sample(f, tr.s[q])

ReadTrcOk(f, e, a, v) ==
  LET d == Delivered(f, e.kind, a) IN
  /\ Len(v.trc) = Len(d)
  /\ \A j \in DOMAIN d : IF d[j] = 0 THEN v.trc[j] = <<>>
                         ELSE SamplesMatch(v.trc[j], f, f.tr[d[j]])
ReadPrmOk(f, e, a, v) ==
  LET d == Delivered(f, e.kind, a) IN
  /\ Len(v.prm) = Len(d)
  /\ \A j \in DOMAIN d : IF d[j] = 0 THEN v.prm[j] = <<>>
                         ELSE RowMatches(e.rule, v.prm[j], f.tr[d[j]].h, d[j] - 1)
=============================================================================

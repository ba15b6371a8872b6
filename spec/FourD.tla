------------------------------- MODULE FourD --------------------------------
(* C26: 4D binning.  The distance of a trace of the first survey and one of   *)
(* the second is that of their sources plus that of their receivers, or, shot *)
(* in the other direction, of source and receiver crosswise, whichever is     *)
(* less.  Every trace of the first survey with a trace of the second within   *)
(* the limit (of the same inline and crossline, if asked for) is output once, *)
(* and at the same place of the other output is one of its nearest traces.    *)
EXTENDS SegyFile

\* roots are taken of tenths and found in hundredths, rounded down
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Beyond == 1000000
AbsD(x) == IF x < 0 THEN -x ELSE x
Hyp(dx, dy) == IF dx > 2000 \/ dy > 2000 THEN Beyond ELSE RootIn((dx * dx + dy * dy) * 100, 0, 30000)
Apart(p, q) == Hyp(AbsD(p[1] - q[1]), AbsD(p[2] - q[2]))
Lesser(a, b) == IF a < b THEN a ELSE b
Dsr(x, y) == Lesser(Apart(x[1], y[1]) + Apart(x[2], y[2]), Apart(x[1], y[2]) + Apart(x[2], y[1]))

\* source and receiver of a trace, in tenths
Pair(h) == << <<Value(h, 20) \div 1000, Value(h, 21) \div 1000>>, <<Value(h, 22) \div 1000, Value(h, 23) \div 1000>> >>
Line(h) == <<Value(h, 26), Value(h, 27)>>
Distances(A, B, lines) ==
  [i \in DOMAIN A.tr |-> [j \in DOMAIN B.tr |->
     IF lines /\ Line(A.tr[i].h) # Line(B.tr[j].h) THEN 2 * Beyond ELSE Dsr(Pair(A.tr[i].h), Pair(B.tr[j].h))]]
RECURSIVE LeastTo(_, _)
LeastTo(row, n) == IF n = 0 THEN 2 * Beyond ELSE Lesser(row[n], LeastTo(row, n - 1))
Least(row) == LeastTo(row, Len(row))

\* where the distance is written, and in which units
DsW == {W(225), W(225) + 1, W(215)}
Written(words) ==      \* in hundredths
  LET v == Int32(words[W(225) + 1], words[W(225) + 2]) sc == words[W(215) + 1] IN
  IF v = 0 THEN 0 ELSE IF sc \in {0, 1} THEN v * 100 ELSE IF sc > 1 THEN v * sc * 100 ELSE (v * 100) \div (-sc)

SameBut(skip, words, h) == /\ Len(words) = 120
                           /\ \A w \in (0..119) \ skip : words[w + 1] = RawAt(h, w)

\* samples tell the traces of a survey apart
Which(f, trc) == {t \in DOMAIN f.tr : f.tr[t].s = trc}
Facts(f, out, text) ==
  IF "ns" \notin DOMAIN out THEN "an output is not a SEG-Y file"
  ELSE IF out.ns # f.ns \/ out.inc # f.inc \/ out.fmt # 5 THEN "an output has another geometry"
  ELSE IF out.text # text THEN "an output has another text header"
  ELSE IF out.size # FileSize(Len(out.trc), f.ns) THEN "an output has the wrong size"
  ELSE IF \E k \in DOMAIN out.trc : Which(f, out.trc[k]) = {} THEN "an output has a trace its survey does not have"
  ELSE ""

Slack == 3
BinWhy(A, B, o1, o2, e) ==
  LET fa == Facts(A, o1, e.text) fb == Facts(B, o2, e.text) IN
  IF fa # "" THEN fa ELSE IF fb # "" THEN fb
  ELSE IF Len(o1.trc) # Len(o2.trc) THEN "the outputs have different lengths"
  ELSE
  LET D == TLCEval(Distances(A, B, e.lines))
      best == TLCEval([i \in DOMAIN A.tr |-> Least(D[i])])
      K == DOMAIN o1.trc
      one == TLCEval([k \in K |-> CHOOSE t \in Which(A, o1.trc[k]) : TRUE])
      two == TLCEval([k \in K |-> CHOOSE t \in Which(B, o2.trc[k]) : TRUE])
      skip == IF e.print THEN DsW ELSE {}
  IN IF \E k \in K : best[one[k]] > e.limit THEN "a trace without a match within the limit was output"
     ELSE IF \E i \in DOMAIN A.tr : best[i] <= e.limit /\ ~\E k \in K : one[k] = i THEN "a trace with a match was left out"
     ELSE IF \E k, m \in K : k # m /\ one[k] = one[m] THEN "a trace was output twice"
     ELSE IF \E k \in K : D[one[k]][two[k]] > best[one[k]] + Slack THEN "a trace was paired with one that is not its best match"
     ELSE IF \E k \in K : ~SameBut(skip, o1.hdr[k], A.tr[one[k]].h) \/ ~SameBut(skip, o2.hdr[k], B.tr[two[k]].h)
          THEN "an output trace has another header"
     ELSE IF e.print /\ \E k \in K : AbsD(Written(o1.hdr[k]) - best[one[k]]) > Slack \/ AbsD(Written(o2.hdr[k]) - best[one[k]]) > Slack
          THEN "another distance was written"
     ELSE ""
=============================================================================

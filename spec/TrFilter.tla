----------------------------- MODULE TrFilter -------------------------------
(* C28: recorded filters and filtered traces.  The state holds what every     *)
(* window has been filtered to, by filter, padding and samples: the same      *)
(* window always gets the same, wherever it lies in its trace, whatever the   *)
(* other traces hold, and whatever its scale and sign.                        *)
EXTENDS TraceRun, Filter

FiSt0(t) == [done |-> <<>>]
TypeOf(e) == <<"low", "high", "band", "stop">>[e.type + 1]
OrderE(e) == IF e.N = 0 THEN AutoOrder(TypeOf(e), e.sorted) ELSE e.N
CornersE(e) == IF e.N = 0 THEN AutoCorners(TypeOf(e), e.sorted) ELSE e.cs
Window(e, k) == SubSeq(e.xs[k], WinStart(e.ns, e.nw, e.wc) + 1, WinEnd(e.ns, e.nw, e.wc))
Key(e, k) == <<e.type, e.dmn, IF e.dmn = 0 THEN e.pad ELSE 0, e.fs, OrderE(e), CornersE(e), Window(e, k)>>

\* ---- allowances, in millionths --------------------------------------------------
CoefTol(c) == 20 + AbsF(c) \div 20000
OutTol == 3000
GainTol == 1000

Differ(p, q) == Len(p) # Len(q) \/ \E k \in DOMAIN p : AbsF(p[k] - q[k]) > CoefTol(p[k])
MkWhy(e) ==
  LET v == e.v[1] f == TLCEval(Coefs(TypeOf(e), e.N, e.d1, e.d2)) IN
  IF v.guard # 1 THEN "memory outside the coefficients was changed"
  ELSE IF Differ(f.a, v.a) THEN "the denominator is not that of the Butterworth filter"
  ELSE IF Differ(f.b, v.b) THEN "the numerator is not that of the Butterworth filter"
  ELSE ""

TraceWhy(s, e, k) ==
  LET v == e.v[1] key == Key(e, k) c == CornersE(e) IN
  IF key \in DOMAIN s.done
  THEN IF s.done[key].b = v.bits[k] THEN ""
       ELSE IF e.dmn = 1 /\ \A j \in DOMAIN v.y[k] : AbsF(v.y[k][j] - s.done[key].y[j]) <= 100 THEN ""
       ELSE "the same window was filtered differently"
  ELSE IF \E j \in DOMAIN v.y[k] : v.y[k][j] = 1000000001 THEN "filtered samples are not finite"
  ELSE IF e.dmn = 1
       THEN LET x == Window(e, k)
                want == IF TypeOf(e) \in {"low", "stop"} THEN Total(x) * One ELSE 0
            IN IF AbsF(v.sum[k] - want) > OutTol THEN "the constant part was not scaled by the gain at frequency 0" ELSE ""
       ELSE LET x == Window(e, k)
                y == Filtered(Coefs(TypeOf(e), OrderE(e), c[1], c[2]), [j \in DOMAIN x |-> x[j] * One], e.pad)
                d == {AbsF(y[j] - v.y[k][j]) : j \in DOMAIN y}
            IN IF \A z \in d : z <= OutTol THEN ""
               ELSE "the window was not filtered forward and backward with the filter asked for"
FiltWhy(s, e) ==
  LET v == e.v[1] IN
  IF v.same # 1 THEN "samples outside the window were changed"
  ELSE IF e.w0 # WinStart(e.ns, e.nw, e.wc) \/ e.wl # WinLen(e.ns, e.nw, e.wc) THEN "scenario: another window"
  ELSE LET w == {k \in DOMAIN e.xs : TraceWhy(s, e, k) # ""} IN
       IF w = {} THEN "" ELSE TraceWhy(s, e, CHOOSE k \in w : TRUE)
GainWhy(e) ==
  LET g == e.v[1].g IN
  IF AbsF(g) > 30000000 THEN "a gain beyond all measure"
  ELSE IF AbsF(Mul(g, g) - Gain2(TypeOf(e), e.N, e.d1, e.d2, (180 * e.i) \div e.n)) <= GainTol THEN ""
  ELSE IF e.fs = 0 THEN "a frequency was not scaled by the gain of the Butterworth filter"
  ELSE "a frequency was scaled by the gain at another (the response is evaluated at fs i / n radians)"

FiWhy(s, e) ==
  CASE e.op = "END" -> ""
    [] e.op = "mkfilt" -> MkWhy(e)
    [] e.op = "filt" -> FiltWhy(s, e)
    [] e.op = "fgain" -> GainWhy(e)
    [] OTHER -> "unknown event"
FiUpd(s, e) ==
  IF e.op # "filt" THEN s
  ELSE [done |-> [x \in {Key(e, k) : k \in DOMAIN e.xs} |->
                    LET k == CHOOSE k \in DOMAIN e.xs : Key(e, k) = x IN [b |-> e.v[1].bits[k], y |-> e.v[1].y[k]]] @@ s.done]
=============================================================================

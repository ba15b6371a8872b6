------------------------------ MODULE TrSignal ------------------------------
(* Recorded results of gain control and tapering against C18 and C19.        *)
EXTENDS TraceRun, Signal

SiSt0(t) == 0
SiUpd(s, e) == s
UserW(j, ramp) == 21 * ramp + j          \* the weight the test function returns

UserOk(e, v, j) ==
  \E k \in DOMAIN v.calls :
     /\ v.calls[k][1] = Window(e.sig, j, e.win)
     /\ v.calls[k][2] = Len(Window(e.sig, j, e.win))
     /\ v.calls[k][3] = e.target
     /\ v.calls[k][4] = Centre(j, e.win)
     /\ v.out[j] = e.sig[j] * v.calls[k][5]

AgcOk(e, v, j) ==
  LET w == Window(e.sig, j, e.win)
      q == v.out[j]
  IN IF e.f = "user" THEN UserOk(e, v, j)
     ELSE IF q = -999999 THEN FALSE                   \* not finite
     ELSE IF e.sig[j] = 0 THEN q = 0
     ELSE IF q = -999997 THEN FALSE
     ELSE CASE e.f = "rms" -> RmsOk(w, q)
            [] e.f = "tri" -> TriOk(w, Centre(j, e.win), q)
            [] e.f = "mean" -> MeanOk(w, q)
            [] e.f = "median" -> MedOk(w, q)
KnownMedian(e, v, j) == e.f = "median" /\ e.sig[j] # 0
                        /\ MedUpperOk(Window(e.sig, j, e.win), e.target, v.out[j])
WhyAgc(e, v) ==
  IF v.guard # 1 \/ Len(v.out) # Len(e.sig) THEN "memory outside the trace was changed"
  ELSE LET wrong == {j \in DOMAIN e.sig : ~AgcOk(e, v, j)} IN
       IF wrong = {} THEN ""
       ELSE IF \A j \in wrong : KnownMedian(e, v, j)
            THEN "median of an even window is not the mean of its two middle values"
       ELSE "a sample was not multiplied by the gain of its window (" \o e.f \o ")"

WhyTaper(e, v) ==
  IF v.guard # 1 THEN "memory outside the trace was changed"
  ELSE IF v.out # Tapered(e.sig, e.l, e.r, UserW) THEN "the taper weighted other samples or with other weights"
  ELSE ""

\* the built-in ramps, in 1/100000
Near(a, b) == Abs(a - b) <= 2
WhyRamp(e, v) ==
  LET R == e.ramp o == v.out IN
  IF Len(o) # R \/ \E j \in 1..R : o[j] < 0 \/ o[j] > 100000 THEN "a ramp leaves 0..1"
  ELSE IF ~Near(o[R], 100000) THEN "a ramp does not end at 1"
  ELSE IF \E j \in 1..(R - 1) : o[j] > o[j + 1] THEN "a ramp is not rising"
  ELSE IF e.f = "lin" /\ \E j \in 1..R : Abs(o[j] * R - j * 100000) > R THEN "the linear ramp is not linear"
  ELSE IF e.f = "cos" /\ \E j \in 1..(R - 1) : ~Near(o[j] + o[R - j], 100000) THEN "the cosine ramp is not symmetric"
  ELSE IF R % 3 = 0 /\ e.f = "cos" /\ ~Near(o[R \div 3], 25000) THEN "the cosine ramp has other values"
  ELSE IF R % 3 = 0 /\ e.f = "cos2" /\ ~Near(o[R \div 3], 6250) THEN "the squared cosine ramp has other values"
  ELSE IF R % 2 = 0 /\ e.f = "cos2" /\ ~Near(o[R \div 2], 25000) THEN "the squared cosine ramp has other values"
  ELSE ""
SiWhy(s, e) ==
  CASE e.op = "agc"   -> WhyAgc(e, e.v[1])
    [] e.op = "taper" -> WhyTaper(e, e.v[1])
    [] e.op = "ramp"  -> WhyRamp(e, e.v[1])
    [] e.op = "END"   -> ""
    [] OTHER -> "unknown event"
=============================================================================

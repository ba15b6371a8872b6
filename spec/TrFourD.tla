------------------------------ MODULE TrFourD -------------------------------
(* C26: recorded runs of the 4D binning tool                                  *)
EXTENDS TraceRun, FourD

FdSt0(t) == <<>>
FdUpd(s, e) == IF e.op = "fput" THEN (e.name :> PutFile(e)) @@ s ELSE s
Called(fs, nm) == {j \in DOMAIN fs : fs[j].name = nm}
FdWhy(s, e) ==
  IF e.op = "END" \/ e.op = "fput" THEN ""
  ELSE IF e.op # "tool" THEN "unknown event"
  ELSE IF \E r \in DOMAIN e.v : e.v[r].rc # 0 THEN "the tool returned a failure"
  ELSE LET fs == e.v[1].files
           c == Called(fs, "c.segy") d == Called(fs, "d.segy")
       IN IF c = {} \/ d = {} \/ Len(fs) # 2 THEN "the tool wrote other files"
          ELSE BinWhy(s[e.in1], s[e.in2], fs[CHOOSE j \in c : TRUE], fs[CHOOSE j \in d : TRUE], e)
=============================================================================

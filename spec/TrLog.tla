------------------------------- MODULE TrLog --------------------------------
(* C22.  A log is [max, err, list]; entries are <<file, layer, stat, msg,     *)
(* verb>> and the list is compared as a bag.                                  *)
EXTENDS TraceRun

Entry(e) == <<e.file, e.layer, e.stat, e.msg, e.verb>>
IsError == 3

RECURSIVE CountIn(_, _, _)
CountIn(q, x, k) == IF k > Len(q) THEN 0 ELSE (IF q[k] = x THEN 1 ELSE 0) + CountIn(q, x, k + 1)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A k \in DOMAIN a : CountIn(a, a[k], 1) = CountIn(b, a[k], 1)

NewLog(max) == [max |-> max, err |-> FALSE, list |-> <<>>]
Recorded(g, e) ==
  IF "cond" \in DOMAIN e /\ e.cond = 0 THEN g
  ELSE [g EXCEPT !.err = g.err \/ e.stat = IsError,
                 !.list = IF e.verb <= g.max THEN Append(g.list, Entry(e)) ELSE g.list]

LgSt0(t) == ("piol" :> NewLog(t.max))
LgUpd(s, e) ==
  CASE e.op = "lognew"  -> (e.o :> NewLog(e.max)) @@ s
    [] e.op = "logrec"  -> [s EXCEPT ![e.o] = Recorded(s[e.o], e)]
    [] e.op = "logproc" -> [s EXCEPT ![e.o].list = <<>>]
    [] OTHER -> s

StateWhy(g, v) ==
  IF (v.iserr = 1) # g.err THEN "wrong error state"
  ELSE IF ~SameBag(v.list, g.list) THEN "the log holds other entries"
  ELSE IF \E st2 \in 0..4 : v.num[st2 + 1] # Cardinality({k \in DOMAIN g.list : g.list[k][3] = st2})
       THEN "wrong number of entries by status"
  ELSE ""
Line(x) == <<x[1], ToString(x[2]), ToString(x[3]), x[4], ToString(x[5])>>
OutWhy(g, v) ==
  IF ~SameBag(v.out, [k \in DOMAIN g.list |-> Line(g.list[k])]) THEN "processing did not emit each entry exactly once"
  ELSE ""
First(a, b) == IF a # "" THEN a ELSE b
LgWhy1(s, e, v) ==
  CASE e.op = "lognew"   -> StateWhy(NewLog(e.max), v)
    [] e.op = "logrec"   -> StateWhy(Recorded(s[e.o], e), v)
    [] e.op = "logproc"  -> First(OutWhy(s[e.o], v), StateWhy([s[e.o] EXCEPT !.list = <<>>], v))
    [] e.op = "logdel"   -> OutWhy(s[e.o], v)
    [] e.op = "logcheck" -> IF s["piol"].err
                            THEN IF v.exit = 1 THEN "" ELSE "the error check did not end the process with failure"
                            ELSE IF v.exit = 77 THEN "" ELSE "the error check ended the process without an error"
    [] OTHER -> "unknown event"
LgWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE LET wrong == {r \in 1..Len(e.v) : LgWhy1(s, e, e.v[r]) # ""} IN
       IF wrong = {} THEN "" ELSE LgWhy1(s, e, e.v[CHOOSE r \in wrong : TRUE])
=============================================================================

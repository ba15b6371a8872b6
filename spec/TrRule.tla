------------------------------- MODULE TrRule -------------------------------
(* Recorded histories of rules and parameter structures against C09.         *)
(* state: r rule handle -> [e: entries, full], p parameter handle -> param   *)
EXTENDS TraceRun, Rules

RuSt0(t) == [r |-> <<>>, p |-> <<>>]
FullOf(e) == IF e.api = "c" THEN TRUE ELSE e.full = 1
Other(s, e) == IF e.k = "merge" THEN s.r[e.from].e ELSE <<>>
PRule(s, e) == IF "rule" \in DOMAIN e THEN s.r[e.rule].e
               ELSE NewRule([metas |-> <<>>, defaults |-> 1, extras |-> 0])
Copied(s, e) ==
  LET a == s.p[e.src] b == s.p[e.o] IN
  [b EXCEPT !.rows[e.k + 1] = CopyRow(a.rule, a.rows[e.j + 1], b.rule, b.rows[e.k + 1])]
RuUpd(s, e) ==
  CASE e.op = "rnew" -> [s EXCEPT !.r = (e.o :> [e |-> NewRule(e), full |-> FullOf(e)]) @@ s.r]
    [] e.op = "rop"  -> [s EXCEPT !.r[e.o].e = RuleOp(s.r[e.o].e, e, Other(s, e))]
    [] e.op = "pnew" -> [s EXCEPT !.p = (e.o :> NewParam(PRule(s, e), e.n)) @@ s.p]
    [] e.op = "pset" -> [s EXCEPT !.p[e.o] = SetP(s.p[e.o], e)]
    [] e.op = "pcpy" -> [s EXCEPT !.p[e.o] = Copied(s, e)]
    [] OTHER -> s
RuWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE LET n == RuUpd(s, e) v == e.v[1] IN
  CASE e.op = "rnew" -> RuleWhy(n.r[e.o].e, n.r[e.o].full, v)
    [] e.op = "rop"  -> IF (v.ret = 1) # RuleRet(s.r[e.o].e, e) THEN "wrong answer to adding a quantity"
                        ELSE RuleWhy(n.r[e.o].e, n.r[e.o].full, v)
    [] e.op \in {"pnew", "pset"} -> RowsWhy(n.p[e.o], v)
    [] e.op = "pcpy" -> IF RowsWhy(n.p[e.o], v) # "" THEN RowsWhy(n.p[e.o], v)
                        ELSE RowsWhy(n.p[e.src], [rows |-> v.src, sz |-> Len(v.src)])
    [] OTHER -> "unknown event"
=============================================================================

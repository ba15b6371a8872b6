------------------------------- MODULE Rules --------------------------------
(* C09: a rule is a function from quantities to entries [t, loc, sc] (t as in *)
(* the driver: 1 scaled, 2 long, 3 short, 4 index, 0 raw copy), a parameter   *)
(* structure a rule and, per trace, a function from quantities to values.     *)
EXTENDS SegyHdr

TypeNo(c) == IF c = "f" THEN 1 ELSE IF c = "l" THEN 2 ELSE 3
Ent(t, loc, sc) == [t |-> t, loc |-> loc, sc |-> sc]
Std(m) == IF m = MCopy THEN Ent(0, 0, 0)
          ELSE IF m \in {MLtn, MGtn} THEN Ent(4, 0, 0)
          ELSE Ent(TypeNo(Layout[m].t), Layout[m].loc, Layout[m].sc)
HasStd(m) == m \in DOMAIN Layout \/ m = MCopy
Defaults == {20, 21, 22, 23, 24, 25, 14, 26, 27, 5}
Extras == {3, 4, 6, 10, 9, 12, 13, 15, 16, 17, 7, 8, 11, 29, 28}

Without(r, m) == [q \in (DOMAIN r) \ {m} |-> r[q]]
Put(r, m, e) == (m :> e) @@ r
AddStd(r, m) == IF m \in DOMAIN r \/ ~HasStd(m) THEN r ELSE Put(r, m, Std(m))
RECURSIVE AddAll(_, _)
AddAll(r, ms) == IF ms = {} THEN r ELSE LET m == CHOOSE m \in ms : TRUE IN AddAll(AddStd(r, m), ms \ {m})
NewRule(e) == LET base == (MLtn :> Ent(4, 0, 0)) @@ (MGtn :> Ent(4, 0, 0))
                  ms == {e.metas[j] : j \in DOMAIN e.metas}
                        \cup (IF e.defaults = 1 THEN Defaults ELSE {}) \cup (IF e.extras = 1 THEN Extras ELSE {})
              IN AddAll(base, ms)
Merge(r, o) == [q \in DOMAIN r \cup DOMAIN o |-> IF q \in DOMAIN r THEN r[q] ELSE o[q]]

RuleOp(r, e, other) ==
  CASE e.k = "add"   -> AddStd(r, e.m)
    [] e.k = "merge" -> Merge(r, other)
    [] e.k = "long"  -> Put(r, e.m, Ent(2, e.loc, 0))
    [] e.k = "short" -> Put(r, e.m, Ent(3, e.loc, 0))
    [] e.k = "float" -> Put(r, e.m, Ent(1, e.loc, e.scal))
    [] e.k = "index" -> Put(r, e.m, Ent(4, 0, 0))
    [] e.k = "copy"  -> IF MCopy \in DOMAIN r THEN r ELSE Put(r, MCopy, Std(MCopy))
    [] e.k = "rm"    -> Without(r, e.m)
RuleRet(r, e) == IF e.k = "add" THEN e.m \notin DOMAIN r /\ HasStd(e.m) ELSE TRUE

OfType(r, t) == {m \in DOMAIN r : r[m].t = t}
N(r, t) == Cardinality(OfType(r, t))
PMem(r) == 8 * N(r, 2) + 2 * N(r, 3) + 8 * N(r, 1) + 8 * N(r, 4) + (IF N(r, 0) > 0 THEN 240 ELSE 0)
Size(t) == IF t = 3 THEN 2 ELSE 4
\* bytes (from 1) an entry touches
LoOf(x) == IF x.t = 1 THEN (IF x.sc < x.loc THEN x.sc ELSE x.loc) ELSE x.loc
HiOf(x) == IF x.t = 1 THEN (IF x.sc + 2 > x.loc + 4 THEN x.sc + 2 ELSE x.loc + 4) ELSE x.loc + Size(x.t)
StoredM(r) == {m \in DOMAIN r : r[m].t \in {1, 2, 3}}
MinOf(Z) == CHOOSE x \in Z : \A y \in Z : x <= y
MaxOf(Z) == CHOOSE x \in Z : \A y \in Z : x >= y
Extent(r) == MaxOf({HiOf(r[m]) : m \in StoredM(r)}) - MinOf({LoOf(r[m]) : m \in StoredM(r)})

\* does what the library shows of a rule agree? v = [ent: <<meta, type, num, loc>>, cnt, pmem, ext]
RuleWhy(r, full, v) ==
  LET ms == {v.ent[j][1] : j \in DOMAIN v.ent} IN
  IF ms # DOMAIN r \/ Len(v.ent) # Cardinality(DOMAIN r) THEN "the rule holds other quantities"
  ELSE IF \E j \in DOMAIN v.ent : v.ent[j][2] # r[v.ent[j][1]].t THEN "a quantity has another type"
  ELSE IF \E j \in DOMAIN v.ent : v.ent[j][2] \in {1, 2, 3} /\ v.ent[j][4] # r[v.ent[j][1]].loc
       THEN "a quantity has another place in the header"
  ELSE IF v.cnt # <<N(r, 1), N(r, 2), N(r, 3), N(r, 4), N(r, 0)>> THEN "wrong number of quantities of a type"
  ELSE IF \E i, j \in DOMAIN v.ent : i # j /\ v.ent[i][2] = v.ent[j][2] /\ v.ent[i][3] = v.ent[j][3] /\ v.ent[i][2] # 0
       THEN "two quantities share a slot"
  ELSE IF \E j \in DOMAIN v.ent : v.ent[j][2] # 0 /\ ~(v.ent[j][3] \in 0..(N(r, v.ent[j][2]) - 1))
       THEN "a quantity has a slot that does not exist"
  ELSE IF v.pmem # PMem(r) THEN "wrong memory requirement"
  ELSE IF full /\ v.ext # 240 THEN "wrong extent"
  ELSE IF ~full /\ StoredM(r) # {} /\ N(r, 0) = 0 /\ v.ext # Extent(r) THEN "wrong extent"
  ELSE ""

\* ---- parameters: [rule, rows: sequence of quantity -> value] -----------------------
Zero(t) == IF t = 0 THEN <<>> ELSE 0
NewParam(r, n) == [rule |-> r, rows |-> [k \in 1..n |-> [m \in DOMAIN r |-> Zero(r[m].t)]]]
SetP(p, e) == IF e.m \in DOMAIN p.rule THEN [p EXCEPT !.rows[e.k + 1][e.m] = e.x] ELSE p
\* what a raw header says about an entry
DecodeAt(words, x) ==
  LET g(w) == LET hit == {words[j] : j \in {i \in DOMAIN words : words[i][1] = w}} IN
              IF hit = {} THEN 0 ELSE (CHOOSE h \in hit : TRUE)[2]
  IN CASE x.t = 3 -> g(W(x.loc))
       [] x.t = 2 -> Int32(g(W(x.loc)), g(W(x.loc) + 1))
       [] x.t = 1 -> LET v == Int32(g(W(x.loc)), g(W(x.loc) + 1)) IN IF v = 0 THEN 0 ELSE Scaled(v, g(W(x.sc)))
CopyRow(srule, srow, drule, drow) ==
  [m \in DOMAIN drule |->
     IF m \in DOMAIN srule /\ srule[m].t = drule[m].t THEN srow[m]
     ELSE IF MCopy \in DOMAIN srule /\ drule[m].t \in {1, 2, 3} THEN DecodeAt(srow[MCopy], drule[m])
     ELSE drow[m]]
RowsWhy(p, v) ==
  IF v.sz # Len(p.rows) \/ Len(v.rows) # Len(p.rows) THEN "wrong number of traces"
  ELSE IF \E k \in DOMAIN v.rows : {v.rows[k][j][1] : j \in DOMAIN v.rows[k]} # DOMAIN p.rule
       THEN "a trace has other quantities"
  ELSE IF \E k \in DOMAIN v.rows : \E j \in DOMAIN v.rows[k] : v.rows[k][j][2] # p.rows[k][v.rows[k][j][1]]
       THEN "a quantity of a trace has another value"
  ELSE ""
=============================================================================

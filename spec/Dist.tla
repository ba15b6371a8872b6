-------------------------------- MODULE Dist --------------------------------
(* C10-C14: what the collective operations compute, told serially.            *)
EXTENDS SegyHdr

\* ---- orders -----------------------------------------------------------------
\* the keys of the named orders, most significant first; "O" is the distance of
\* source and receiver, squared, in quarters (coordinates are multiples of 1/2)
Off2(g(_)) == LET dx == (g(20) - g(22)) \div 5000 dy == (g(21) - g(23)) \div 5000 IN dx * dx + dy * dy
Keys(type, g(_)) ==
  CASE type = 35 -> <<g(20), g(21), g(22), g(23), g(MLtn)>>
    [] type = 36 -> <<g(20), g(21), Off2(g), g(MLtn)>>
    [] type = 37 -> <<g(20), g(21), g(14), g(MLtn)>>
    [] type = 38 -> <<g(22), g(23), Off2(g), g(MLtn)>>
    [] type = 39 -> <<g(22), g(23), g(14), g(MLtn)>>
    [] type = 40 -> <<g(26), g(27), Off2(g), g(MLtn)>>
    [] type = 41 -> <<g(26), g(27), g(14), g(MLtn)>>
    [] type = 42 -> <<Off2(g), g(26), g(27), g(MLtn)>>
    [] type = 43 -> <<g(14), g(26), g(27), g(MLtn)>>

RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(a) THEN FALSE
                    ELSE IF a[k] < b[k] THEN TRUE
                    ELSE IF a[k] > b[k] THEN FALSE
                    ELSE LexLess(a, b, k + 1)

RowVal(rule, row, m) == row[Pos(rule, m)]
RowKeys(type, rule, row) == LET g(m) == RowVal(rule, row, m) IN Keys(type, g)
ByKeys(by, rule, row) == [k \in DOMAIN by |-> RowVal(rule, row, by[k])]

\* ---- processes' parts in process order -------------------------------------------
RECURSIVE Cat(_, _)
Cat(parts, k) == IF k > Len(parts) THEN <<>> ELSE parts[k] \o Cat(parts, k + 1)
Conc(parts) == Cat(parts, 1)

RowSame(rule, a, b) ==   \* a: as given (raw headers sparse), b: as found (raw headers as 120 words)
  /\ Len(a) = Len(b)
  /\ \A q \in DOMAIN rule : IF rule[q] = MCopy THEN HdrMatches(b[q], RawHdr(a[q])) ELSE a[q] = b[q]

\* ---- sorting ----------------------------------------------------------------------
SortWhy(e) ==
  LET P == Len(e.v)
      inp == Conc([r \in 1..P |-> e.a[r].rows])
      out == Conc([r \in 1..P |-> e.v[r].rows])
      lst == Conc([r \in 1..P |-> e.v[r].list])
      gp == Pos(e.rule, MGtn)
      key == [k \in DOMAIN out |-> IF "by" \in DOMAIN e THEN ByKeys(e.by, e.rule, out[k])
                                   ELSE RowKeys(e.type, e.rule, out[k])]
      at == [k \in DOMAIN out |-> out[k][gp]]
      src == [x \in {inp[k][gp] : k \in DOMAIN inp} |-> CHOOSE k \in DOMAIN inp : inp[k][gp] = x]
  IN
  IF \E r \in 1..P : Len(e.v[r].rows) # Len(e.a[r].rows) \/ Len(e.v[r].list) # Len(e.a[r].rows)
     THEN "a process ended with another number of entries"
  ELSE IF {at[k] : k \in DOMAIN at} # DOMAIN src THEN "the sorted entries are not the given ones"
  ELSE IF \E k \in DOMAIN out : ~RowSame(e.rule, inp[src[at[k]]], out[k]) THEN "an entry changed"
  ELSE IF \E k \in 1..(Len(out) - 1) : LexLess(key[k + 1], key[k], 1) THEN "the result is not in order"
  ELSE IF e.fo = 0 /\ lst # at THEN "the list is not that of the original trace numbers"
  ELSE IF e.fo = 1 /\ \E k \in DOMAIN out : lst[at[k] + 1] # k - 1 THEN "the list is not that of the new positions"
  ELSE ""

CmpWhy(e) ==
  LET n == Len(e.rows) k == [i \in 1..n |-> RowKeys(e.type, e.rule, e.rows[i])] IN
  IF \E i, j \in 1..n : (e.v[1].m[i][j] = 1) # LexLess(k[i], k[j], 1) THEN "the order compares two traces otherwise"
  ELSE ""

\* is the part [off, off+n) of a file in order?
HdrKeys(type, f, t) == LET g(m) == IF m = MLtn THEN t ELSE Value(f.tr[t].h, m) IN Keys(type, g)
Ordered(type, f, off, n) ==
  LET last == IF off + n > Len(f.tr) THEN Len(f.tr) ELSE off + n IN
  \A t \in (off + 1)..(last - 1) : LexLess(HdrKeys(type, f, t), HdrKeys(type, f, t + 1), 1)
OrderWhy(f, e) ==
  IF \E r \in DOMAIN e.v : (e.v[r].ok = 1) # Ordered(e.type, f, e.a[r].off, e.a[r].n)
  THEN "wrong answer to whether the file is in order" ELSE ""

\* ---- extrema ------------------------------------------------------------------------
SetMinV(Z) == CHOOSE x \in Z : \A y \in Z : x <= y
SetMaxV(Z) == CHOOSE x \in Z : \A y \in Z : x >= y
MmWhy(e) ==
  LET P == Len(e.v)
      un(m) == IF m \in {26, 27, 14, 5, 3, 4} THEN 10000 ELSE 1
      tr == {<<r, k>> : r \in 1..P, k \in 1..50}
      has == {x \in tr : x[2] <= Len(e.a[x[1]].rows)}
      val(x, m) == RowVal(e.rule, e.a[x[1]].rows[x[2]], m) * un(m)
      num(x) == e.a[x[1]].off + x[2] - 1
      ok(el, m, best) == /\ el.v = best
                         /\ \E x \in has : num(x) = el.n /\ val(x, m) = best
      good(v) ==
        IF has = {} THEN \A q \in 1..4 : v.e[q].n = -1
        ELSE /\ ok(v.e[1], e.m1, SetMinV({val(x, e.m1) : x \in has}))
             /\ ok(v.e[2], e.m1, SetMaxV({val(x, e.m1) : x \in has}))
             /\ ok(v.e[3], e.m2, SetMinV({val(x, e.m2) : x \in has}))
             /\ ok(v.e[4], e.m2, SetMaxV({val(x, e.m2) : x \in has}))
  IN IF \E r \in 1..P : e.v[r] # e.v[1] THEN "processes were given different extrema"
     ELSE IF ~good(e.v[1]) THEN "these are not the extrema, or not of that trace" ELSE ""

\* ---- gathers --------------------------------------------------------------------------
RECURSIVE Runs(_, _, _)
Runs(p, k, acc) ==
  IF k > Len(p) THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][2] = p[k][1] /\ acc[Len(acc)][3] = p[k][2]
       THEN Runs(p, k + 1, [acc EXCEPT ![Len(acc)] = <<@[1] + 1, @[2], @[3]>>])
       ELSE Runs(p, k + 1, Append(acc, <<1, p[k][1], p[k][2]>>))
Gathers(f) == Runs([t \in DOMAIN f.tr |-> <<Value(f.tr[t].h, 26), Value(f.tr[t].h, 27)>>], 1, <<>>)
GathWhy(f, e) ==
  LET want == Gathers(f) IN
  IF \E r \in DOMAIN e.v : e.v[r].n # Len(want) THEN "wrong number of gathers"
  ELSE IF \E r \in DOMAIN e.v : e.v[r].g # want THEN "a gather differs from the serial result" ELSE ""

\* ---- the distributed vector --------------------------------------------------------------
\* vector state: [n, val: index -> last value stored]
\* one process's phase: its loads see what was stored before the phase, or by itself during it
RECURSIVE Phase(_, _, _, _)
Phase(n, val, acts, k) == IF k > Len(acts) THEN val
                          ELSE Phase(n, IF acts[k][1] = 1 /\ acts[k][2] \in 0..(n - 1)
                                        THEN (acts[k][2] :> acts[k][3]) @@ val ELSE val, acts, k + 1)
PhaseOk(vec, acts, r) ==
  \A k \in DOMAIN acts :
    \/ acts[k][1] = 1
    \/ acts[k][2] \notin 0..(vec.n - 1)
    \/ LET before == Phase(vec.n, vec.val, SubSeq(acts, 1, k - 1), 1) IN
       acts[k][2] \notin DOMAIN before \/ before[acts[k][2]] = r[k]
RECURSIVE AllPhase(_, _, _)
AllPhase(vec, a, r) == IF r > Len(a) THEN vec
                       ELSE AllPhase([vec EXCEPT !.val = Phase(vec.n, vec.val, a[r].acts, 1)], a, r + 1)
=============================================================================

------------------------------ MODULE TrDecomp ------------------------------
(* Recorded answers of the real decomposition functions against C01.  The    *)
(* numbers are limbs, so 64-bit sizes are judged exactly.                    *)
EXTENDS TraceRun, Limbs

DcSt0(t) == 0
DcUpd(s, e) == s

End(x) == LPlus(x.b, x.n)
SameInC(x) == x.b = x.cb /\ x.n = x.cn

WhyDecomp(e) ==
  LET d == e.v[1].d IN
  IF Len(d) # e.P THEN "wrong number of ranges"
  ELSE IF d[1].b # LZero THEN "the first range does not start at 0"
  ELSE IF \E k \in 1..(e.P - 1) : End(d[k]) # d[k + 1].b \/ ~LNoOverflow(d[k].b, d[k].n)
       THEN "gap or overlap between neighbouring ranges"
  ELSE IF End(d[e.P]) # e.N THEN "the last range does not end at N"
  ELSE IF \E j, k \in 1..e.P : ~LWithin1(d[j].n, d[k].n) THEN "sizes differ by more than one"
  ELSE IF \E k \in 1..e.P : ~SameInC(d[k]) THEN "C and C++ disagree"
  ELSE ""

WhyLocate(e) ==
  LET L == e.v[1].l IN
  IF Len(L) # Len(e.idx) THEN "wrong number of answers"
  ELSE IF \E k \in 1..Len(L) : ~LLt(L[k].rank, LOf(e.P)) THEN "owner is not a process"
  ELSE IF \E k \in 1..Len(L) : ~(LLe(L[k].b, e.idx[k]) /\ LLt(e.idx[k], End(L[k])))
       THEN "the owner's range does not contain the item"
  ELSE IF \E k \in 1..Len(L) : LPlus(L[k].b, L[k].li) # e.idx[k] THEN "wrong local position"
  ELSE ""

WhyAdjacent(e) ==
  LET p == e.v[1].p  f == e.v[1].first  z == e.v[1].last IN
  IF f.b # LZero THEN "the first range does not start at 0"
  ELSE IF End(z) # e.N \/ ~LNoOverflow(z.b, z.n) THEN "the last range does not end at N"
  ELSE IF \E k \in 1..Len(p) : End(p[k].x) # p[k].y.b \/ ~LNoOverflow(p[k].x.b, p[k].x.n)
       THEN "gap or overlap between neighbouring ranges"
  ELSE IF \E k \in 1..Len(p) : ~(LWithin1(p[k].x.n, f.n) /\ LWithin1(p[k].y.n, f.n)
                                 /\ LWithin1(p[k].x.n, z.n) /\ LWithin1(p[k].y.n, z.n)
                                 /\ LWithin1(p[k].x.n, p[k].y.n))
       THEN "sizes differ by more than one"
  ELSE IF \E k \in 1..Len(p) : ~(SameInC(p[k].x) /\ SameInC(p[k].y)) THEN "C and C++ disagree"
  ELSE ""

DcWhy(s, e) ==
  CASE e.op = "decomp"   -> WhyDecomp(e)
    [] e.op = "locate"   -> WhyLocate(e)
    [] e.op = "adjacent" -> WhyAdjacent(e)
    [] e.op = "END"      -> ""
    [] OTHER             -> "unknown event"
=============================================================================

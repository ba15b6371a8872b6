------------------------------- MODULE TrTwin -------------------------------
(* C25: a program run over the C interface (c) and over the C++ classes (d).  *)
(* The two runs make the same observations step by step.  Sizes and the       *)
(* operations of the PIOL are also compared with their meaning.               *)
EXTENDS TraceRun, Limbs

TwSt0(t) == [P |-> t.P]
TwUpd(s, e) == s
Num(v) == v.num
MaxL(vs) == CHOOSE r \in DOMAIN vs : \A q \in DOMAIN vs : LLe(vs[q], vs[r])
SizesWhy(e) ==
  IF \E r \in DOMAIN e.c :
       \/ e.c[r].text # 3200 \/ e.c[r].md # 240
       \/ Len(e.c[r].out) # Len(e.x)
       \/ \E k \in DOMAIN e.x :
            LET df == LMulS(e.x[k][2], 4)
            IN \/ e.c[r].out[k][2] # df
               \/ e.c[r].out[k][1] # LPlus(LOf(3600), LMul(e.x[k][1], LPlus(df, LOf(240))))
  THEN "sizes of the parts of a file" ELSE ""
ExsWhy(s, e) ==
  LET ns == [r \in DOMAIN e.a |-> e.a[r].n]
      m == ns[MaxL(ns)]
  IN IF \E r \in DOMAIN e.c : e.c[r].rank # r - 1 \/ e.c[r].num # s.P THEN "rank or number of processes"
     ELSE IF \E r \in DOMAIN e.c : e.c[r].max # m THEN "maximum over the processes" ELSE ""
TwWhy(s, e) ==
  IF e.c # e.d THEN "the C interface and the C++ classes differ"
  ELSE IF e.op = "sizes" THEN SizesWhy(e)
  ELSE IF e.op = "exs" THEN ExsWhy(s, e)
  ELSE ""
=============================================================================

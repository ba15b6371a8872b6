------------------------------- MODULE TrHdr --------------------------------
(* Header values written to a file and read back, against C08.               *)
EXTENDS TraceRun, SegyHdr, Scaled

HdSt0(t) == 0
HdUpd(s, e) == s

\* one trace: the words in the file, the row written, the row read back
RowWhy(rule, row, words, back) ==
  LET g(w) == words[w + 1]
      Raw(m) == Int32(g(W(Layout[m].loc)), g(W(Layout[m].loc) + 1))
      Sc(m) == g(W(Layout[m].sc))
      cov == Covered(RuleSet(rule))
      Fl == {q \in DOMAIN rule : Layout[rule[q]].t = "f"}
      Grp(q) == {p \in Fl : Layout[rule[p]].sc = Layout[rule[q]].sc}
      GrpVals(q) == [p \in Grp(q) |-> row[p]]
  IN IF \E w \in (0..119) \ cov : words[w + 1] # 0 THEN "bytes that belong to no quantity were written"
     ELSE IF \E q \in (DOMAIN rule) \ Fl : Decode(g, rule[q]) # row[q] THEN "an integer is stored as another value"
     ELSE IF \E q \in (DOMAIN rule) \ Fl : back[q] # row[q] THEN "an integer reads back as another value"
     ELSE IF \E q \in Fl : Sc(rule[q]) \notin Scales THEN "the scale is not a power of ten"
     ELSE IF \E q \in Fl : ~Within(row[q], Raw(rule[q]), Exp10(Sc(rule[q])))
          THEN "a value is stored more than half a unit off"
     ELSE IF \E q \in Fl : OneFits(GrpVals(q)) /\ ~Exact(row[q], Raw(rule[q]), Exp10(Sc(rule[q])))
          THEN "values that fit are not stored exactly"
     ELSE IF \E q \in Fl : \/ back[q].bad # 0
                           \/ Wide(back[q].d) # Stands(Raw(rule[q]), Exp10(Sc(rule[q])))
                           \/ ~IsZero(Wide(back[q].d)) /\ (back[q].n = 1) # (Raw(rule[q]) < 0)
          THEN "a value reads back as another than the one stored"
     ELSE ""

RankWhy(e, r) ==
  LET a == e.a[r] v == e.v[r] hdr == e.v[1].hdr IN
  IF Len(v.rows) # Len(a.rows) THEN "wrong number of headers"
  ELSE IF Len(hdr) # e.nt THEN "wrong number of traces"
  ELSE LET wrong == {j \in DOMAIN a.rows : RowWhy(e.rule, a.rows[j], hdr[a.off + j], v.rows[j]) # ""} IN
       IF wrong = {} THEN ""
       ELSE LET j == CHOOSE j \in wrong : TRUE IN RowWhy(e.rule, a.rows[j], hdr[a.off + j], v.rows[j])
HdWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF \E r \in DOMAIN e.v : e.v[r].err # 0 THEN "error reported without a failure"
  ELSE LET wrong == {r \in DOMAIN e.v : RankWhy(e, r) # ""} IN
       IF wrong = {} THEN "" ELSE RankWhy(e, CHOOSE r \in wrong : TRUE)
=============================================================================

-------------------------------- MODULE Flow --------------------------------
(* C12, C15, C16: what a set of files writes.                                 *)
(*   set  [files: names in the order added, ids: per-trace operations since   *)
(*         the last output, sort: last sort asked for, text, rule, outfix,    *)
(*         pend: a sort is to be done by the next output]                     *)
(* The per-trace operations are uninterpreted: img maps each input file to    *)
(* the samples every one of its traces has after the chain, taken alone.      *)
EXTENDS Dist, SegyFile

NoSort == [k |-> "none"]
NewSet(names, rule, outfix) ==
  [files |-> names, ids |-> <<>>, sort |-> NoSort, text |-> "", rule |-> rule, outfix |-> outfix, pend |-> FALSE]
\* the text header of a set that was not given one
DefaultText == "27:8fb1f25f"

GroupKeys(fs, set) == {<<fs[set.files[j]].ns, fs[set.files[j]].inc>> : j \in DOMAIN set.files}
Members(fs, set, g) ==      \* positions in set.files, in the order added
  LET RECURSIVE Sel(_)
      Sel(j) == IF j > Len(set.files) THEN <<>>
                ELSE IF <<fs[set.files[j]].ns, fs[set.files[j]].inc>> = g THEN <<set.files[j]>> \o Sel(j + 1)
                ELSE Sel(j + 1)
  IN Sel(1)

\* the traces of a group in input order: member (from 1), trace (from 1)
RECURSIVE Places(_, _, _)
Places(fs, mem, c) == IF c > Len(mem) THEN <<>>
                      ELSE [t \in 1..Len(fs[mem[c]].tr) |-> <<c, t>>] \o Places(fs, mem, c + 1)

\* ties: by trace number within the file, then by file
PlaceKeys(fs, mem, srt, x) ==
  LET h == fs[mem[x[1]]].tr[x[2]].h
      g(m) == IF m = MLtn THEN 0 ELSE Value(h, m)
      ks == IF srt.k = "by" THEN [q \in DOMAIN srt.by |-> g(srt.by[q])] ELSE Keys(srt.type, g)
  IN ks \o <<x[2], x[1]>>

\* the library refuses, with an error, to sort a group of which some process has fewer than three traces
MySize(n, P, r) == (n \div P) + (IF r <= n % P THEN 1 ELSE 0)
RECURSIVE MyShare(_, _, _, _, _)
MyShare(fs, mem, P, r, c) == IF c > Len(mem) THEN 0
                             ELSE MySize(Len(fs[mem[c]].tr), P, r) + MyShare(fs, mem, P, r, c + 1)
TooFew(fs, mem, P) == \E r \in 1..P : MyShare(fs, mem, P, r, 1) < 3
Refused(fs, set, P) == set.sort.k # "none" /\ \E g \in GroupKeys(fs, set) : TooFew(fs, Members(fs, set, g), P)

Wanted(fs, mem, srt) ==
  LET ps == Places(fs, mem, 1) IN
  IF srt.k = "none" THEN ps
  ELSE LET key == [x \in {ps[i] : i \in DOMAIN ps} |-> PlaceKeys(fs, mem, srt, x)]
           less(a, b) == LexLess(key[a], key[b], 1)
       IN SortSeq(ps, less)

\* does an output header say, of the quantities selected, what the input header said?
SameHdr(rule, words, h) ==
  LET g(w) == words[w + 1] IN
  /\ Len(words) = 120
  /\ \A m \in Stored(rule) : Decode(g, m) = Value(h, m)

GroupWhy(fs, set, img, g, out, raw, P) ==
  LET mem == Members(fs, set, g)
      w == Wanted(fs, mem, IF TooFew(fs, mem, P) THEN NoSort ELSE set.sort)
      key(k) == fs[mem[w[k][1]]]
      smp(k) == IF set.ids = <<>> THEN [q \in 1..g[1] |-> Sample(key(k), key(k).tr[w[k][2]].s[q])]
                ELSE img[mem[w[k][1]]][w[k][2]]
      okS(k) == \A q \in 1..g[1] : out.trc[k][q] = smp(k)[q]
      okH(k) == IF raw THEN HdrMatches(out.hdr[k], key(k).tr[w[k][2]].h)
                ELSE SameHdr(set.rule, out.hdr[k], key(k).tr[w[k][2]].h)
  IN IF out.size # FileSize(Len(w), g[1]) THEN "an output has the wrong size"
     ELSE IF set.text # "" /\ out.text # set.text THEN "an output has another text header"
     ELSE IF out.fmt # 5 THEN "an output has the wrong number format"
     ELSE IF {out.bin[k] : k \in DOMAIN out.bin} # OwnBin THEN "other words of an output's file header differ"
     ELSE IF Len(out.trc) # Len(w) THEN "an output has the wrong number of traces"
     ELSE IF \E k \in DOMAIN w : ~okH(k) THEN "an output trace has the wrong header"
     ELSE IF \E k \in DOMAIN w : Len(out.trc[k]) # g[1] \/ ~okS(k) THEN "an output trace has the wrong samples"
     ELSE ""

OutFor(found, g) == {j \in DOMAIN found : found[j].ns = g[1] /\ found[j].inc = g[2]}
OutWhy(fs, set, img, found, names, has, P) ==
  LET gs == GroupKeys(fs, set)
      raw == MCopy \in RuleSet(set.rule)
      one(g) == CHOOSE j \in OutFor(found, g) : TRUE
      wrong == {g \in gs : GroupWhy(fs, set, img, g, found[one(g)], raw, P) # ""}
  IN IF \E j \in DOMAIN found : "ns" \notin DOMAIN found[j] THEN "an output is not a SEG-Y file"
     ELSE IF Len(found) # Cardinality(gs) THEN "wrong number of output files"
     ELSE IF \E g \in gs : Cardinality(OutFor(found, g)) # 1 THEN "a group of files has no output of its own"
     ELSE IF has = 1 /\ (\/ {names[k] : k \in DOMAIN names} # {found[j].name : j \in DOMAIN found}
                         \/ Len(names) # Len(found)) THEN "the names returned are not the files produced"
     ELSE IF wrong # {} THEN LET g == CHOOSE x \in wrong : TRUE IN GroupWhy(fs, set, img, g, found[one(g)], raw, P)
     ELSE ""

\* extrema over all files of a set; numbers are trace numbers within their file
SetMmWhy(fs, set, e) ==
  LET un(m) == IF m \in {26, 27, 14, 5, 3, 4} THEN 10000 ELSE 1
      has == UNION {{<<j, t>> : t \in DOMAIN fs[set.files[j]].tr} : j \in DOMAIN set.files}
      val(x, m) == Value(fs[set.files[x[1]]].tr[x[2]].h, m) * un(m)
      ok(el, m, best) == el.v = best /\ \E x \in has : x[2] - 1 = el.n /\ val(x, m) = best
      good(v) ==
        IF has = {} THEN \A q \in 1..4 : v.e[q].n = -1
        ELSE /\ ok(v.e[1], e.m1, SetMinV({val(x, e.m1) : x \in has}))
             /\ ok(v.e[2], e.m1, SetMaxV({val(x, e.m1) : x \in has}))
             /\ ok(v.e[3], e.m2, SetMinV({val(x, e.m2) : x \in has}))
             /\ ok(v.e[4], e.m2, SetMaxV({val(x, e.m2) : x \in has}))
  IN IF \E r \in DOMAIN e.v : e.v[r].e # e.v[1].e THEN "processes were given different extrema"
     ELSE IF ~good(e.v[1]) THEN "these are not the extrema of the set, or not of that trace" ELSE ""
=============================================================================

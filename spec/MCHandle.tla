------------------------------ MODULE MCHandle ------------------------------
(* Programs over the C interface, against reference counts as the library     *)
(* keeps them: every share is a count, a count that reaches zero frees the    *)
(* object and gives up the shares it held.                                    *)
EXTENDS Handle, Integers, Sequences
CONSTANT MAXH
ASSUME MAXH > 0
Kinds == {"piol", "rule", "param", "file"}
\* what an object of each kind holds a share in
Part(k) == IF k = "param" THEN "rule" ELSE IF k = "file" THEN "piol" ELSE ""

VARIABLES s, kind, cnt, freed, n, twice
vars == <<s, kind, cnt, freed, n, twice>>
Init == /\ s = H0 /\ kind = <<>> /\ cnt = <<>> /\ freed = {} /\ n = 0 /\ twice = FALSE

New(k) ==
  /\ n < MAXH
  /\ n' = n + 1
  /\ \E p \in (IF Part(k) = "" THEN {0} ELSE {h \in DOMAIN s.hs : kind[s.hs[h]] = Part(k)}) :
       LET o == n'
           parts == IF p = 0 THEN {} ELSE {s.hs[p]}
       IN /\ s' = HNew(s, o, o, parts)
          /\ kind' = (o :> k) @@ kind
          /\ cnt' = (o :> 1) @@ [x \in DOMAIN cnt |-> IF x \in parts THEN cnt[x] + 1 ELSE cnt[x]]
  /\ UNCHANGED <<freed, twice>>

RECURSIVE Drop(_, _, _)
\* give up one share in o; the objects that die with it
Drop(c, dead, o) ==
  LET c1 == [c EXCEPT ![o] = @ - 1]
      parts == s.objs[o]
  IN IF c1[o] # 0 THEN <<c1, dead>>
     ELSE IF parts = {} THEN <<c1, dead \cup {o}>>
     ELSE Drop(c1, dead \cup {o}, CHOOSE p \in parts : TRUE)

Del(h) ==
  /\ h \in DOMAIN s.hs
  /\ LET d == Drop(cnt, {}, s.hs[h])
     IN /\ cnt' = d[1]
        /\ twice' = (twice \/ d[2] \cap freed # {})
        /\ freed' = freed \cup d[2]
  /\ s' = HDel(s, h)
  /\ UNCHANGED <<kind, n>>

Done == n = MAXH /\ s.hs = <<>> /\ UNCHANGED vars
Next == (\E k \in Kinds : New(k)) \/ (\E h \in 1..MAXH : Del(h)) \/ Done
Spec == Init /\ [][Next]_vars

\* counting shares is the same as being reachable from a handle
Agree == DOMAIN s.objs = {o \in DOMAIN cnt : cnt[o] > 0}
NoDangling == \A h \in DOMAIN s.hs : s.hs[h] \notin freed /\ s.objs[s.hs[h]] \cap freed = {}
Nothing == s.hs = <<>> => s.objs = <<>>
Once == ~twice
=============================================================================

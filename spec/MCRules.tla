------------------------------ MODULE MCRules -------------------------------
(* The bookkeeping behind C09: quantities are given the next free slot of     *)
(* their type; removing one moves the later slots of its type down; putting   *)
(* an existing quantity again removes it first.  After any sequence of        *)
(* operations the slots of each type are exactly 0..count-1, and the          *)
(* selection is the one asked for.                                            *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS M, T, STEPS
VARIABLES ent, cnt, want, n
vars == <<ent, cnt, want, n>>
\* ent: quantity -> <<type, slot>>; want: quantity -> type
Init == ent = <<>> /\ cnt = [t \in T |-> 0] /\ want = <<>> /\ n = 0
RmE(f, m) == LET t == f[m][1] s == f[m][2] IN
  [q \in (DOMAIN f) \ {m} |-> IF f[q][1] = t /\ f[q][2] > s THEN <<t, f[q][2] - 1>> ELSE f[q]]
RmC(f, c, m) == [c EXCEPT ![f[m][1]] = @ - 1]
PutQ(m, t) ==
  LET had == m \in DOMAIN ent
      e0 == IF had THEN RmE(ent, m) ELSE ent
      c0 == IF had THEN RmC(ent, cnt, m) ELSE cnt
  IN /\ ent' = (m :> <<t, c0[t]>>) @@ e0
     /\ cnt' = [c0 EXCEPT ![t] = @ + 1]
     /\ want' = (m :> t) @@ want
AddQ(m, t) == IF m \in DOMAIN ent THEN UNCHANGED <<ent, cnt, want>> ELSE PutQ(m, t)
RmQ(m) == IF m \in DOMAIN ent
          THEN ent' = RmE(ent, m) /\ cnt' = RmC(ent, cnt, m) /\ want' = [q \in (DOMAIN want) \ {m} |-> want[q]]
          ELSE UNCHANGED <<ent, cnt, want>>
Next == n < STEPS /\ n' = n + 1 /\ \E m \in M : (\E t \in T : PutQ(m, t) \/ AddQ(m, t)) \/ RmQ(m)
Spec == Init /\ [][Next]_vars
Slots == \A t \in T : {ent[m][2] : m \in {q \in DOMAIN ent : ent[q][1] = t}} = 0..(cnt[t] - 1)
         /\ cnt[t] = Cardinality({q \in DOMAIN ent : ent[q][1] = t})
Selected == DOMAIN ent = DOMAIN want /\ \A m \in DOMAIN ent : ent[m][1] = want[m]
=============================================================================

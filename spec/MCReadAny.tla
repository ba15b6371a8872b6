------------------------------ MODULE MCReadAny -----------------------------
(* C07: how traces asked for in any order, some more than once, are read     *)
(* through a view that needs ascending offsets: an order of the requests     *)
(* (any that sorts them), the list without repetitions read in one go, and   *)
(* the results handed out along that order.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MAXT, MAXN

Trc == 0..(MAXT - 1)
VARIABLES offs, idx, j, nodups, out, phase
vars == <<offs, idx, j, nodups, out, phase>>
File(t) == 100 + t
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}

Init == /\ offs \in UNION {[1..n -> Trc] : n \in 0..MAXN}
        /\ idx \in {f \in Perms(Len(offs)) : \A a \in 1..(Len(offs) - 1) : offs[f[a]] <= offs[f[a + 1]]}
        /\ j = 1 /\ nodups = <<>> /\ out = [k \in 1..Len(offs) |-> -1] /\ phase = "dedupe"

Dedupe == /\ phase = "dedupe"
          /\ IF j > Len(offs) THEN phase' = "out" /\ j' = 1 /\ UNCHANGED nodups
             ELSE /\ nodups' = IF j = 1 \/ offs[idx[j - 1]] # offs[idx[j]] THEN Append(nodups, offs[idx[j]]) ELSE nodups
                  /\ j' = j + 1 /\ UNCHANGED phase
          /\ UNCHANGED <<offs, idx, out>>
\* the place in nodups that request idx[j] comes from
Place(k) == Cardinality({offs[idx[a]] : a \in 1..k})
HandOut == /\ phase = "out"
           /\ IF j > Len(offs) THEN phase' = "done" /\ UNCHANGED <<j, out>>
              ELSE /\ out' = [out EXCEPT ![idx[j]] = File(nodups[Place(j)])]
                   /\ j' = j + 1 /\ UNCHANGED phase
           /\ UNCHANGED <<offs, idx, nodups>>
Next == Dedupe \/ HandOut \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Ascending == \A a, b \in DOMAIN nodups : a < b => nodups[a] < nodups[b]
AsAsked == phase = "done" => \A k \in DOMAIN offs : out[k] = File(offs[k])
=============================================================================

------------------------------ MODULE MCRadon ------------------------------
(* The design of C17: gathers are dealt to the processes in turn; in every    *)
(* round each process reads its gather behind those of the processes before   *)
(* it, converts it, and writes its angle gather likewise; processes without a *)
(* gather in the last round join in empty-handed.  All calls are collective.  *)
(* And the position of a line in a model that is a grid.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PROCS, MAXG, SIZES, MAXN, GRID

VARIABLES P, size, n, pc, in, rd, wr, rOff, wOff, clash
vars == <<P, size, n, pc, in, rd, wr, rOff, wOff, clash>>

G == Len(size)
Ranks == 0..(P - 1)
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
First(g) == LET f(x) == size[x] IN SumTo(f, g - 1)            \* input trace at which gather g starts

\* the share of a process by the block decomposition, and the gathers it takes (from 1)
Share(r) == (G \div P) + (IF r < G % P THEN 1 ELSE 0)
Most == Share(0)
Mine(r, i) == i * P + r + 1
Take(r, i) == IF i < Share(r) THEN size[Mine(r, i)] ELSE 0

\* pc[r]: the round, and the collective call of the round: 1 read, 2 write
Init ==
  /\ P \in PROCS /\ size \in UNION {[1..g -> SIZES] : g \in 0..MAXG} /\ n \in 1..MAXN
  /\ pc = [r \in Ranks |-> <<0, 1>>] /\ in = [r \in Ranks |-> FALSE]
  /\ rd = <<>> /\ wr = <<>> /\ rOff = 0 /\ wOff = 0 /\ clash = FALSE

Join(r) == /\ ~in[r] /\ pc[r][1] < Share(r) + (Most - Share(r))
           /\ in' = [in EXCEPT ![r] = TRUE]
           /\ UNCHANGED <<P, size, n, pc, rd, wr, rOff, wOff, clash>>

\* what the process before r have in this round
Before(f(_), r) == LET g(x) == f(x - 1) IN SumTo(g, r)
Complete ==
  /\ \A r \in Ranks : in[r]
  /\ LET i == pc[0][1]
         len(r) == Take(r, i)
         out(r) == IF i < Share(r) THEN n ELSE 0
     IN IF pc[0][2] = 1
        THEN /\ rd' = [x \in {<<r, i>> : r \in {q \in Ranks : len(q) > 0}} |->
                         <<rOff + Before(len, x[1]), len(x[1])>>] @@ rd
             /\ rOff' = rOff + Before(len, P)
             /\ UNCHANGED <<wr, wOff, clash>>
        ELSE LET at(r) == {<<wOff + Before(out, r) + j, <<Mine(r, i), j>>>> : j \in 0..(out(r) - 1)}
                 put == UNION {at(r) : r \in Ranks}
                 pos == {p[1] : p \in put}
             IN /\ clash' = (clash \/ Cardinality(pos) # Cardinality(put) \/ pos \cap DOMAIN wr # {})
                /\ wr' = [d \in pos |-> (CHOOSE p \in put : p[1] = d)[2]] @@ wr
                /\ wOff' = wOff + Before(out, P)
                /\ UNCHANGED <<rd, rOff>>
  /\ pc' = [r \in Ranks |-> IF pc[r][2] = 1 THEN <<pc[r][1], 2>> ELSE <<pc[r][1] + 1, 1>>]
  /\ in' = [r \in Ranks |-> FALSE]
  /\ UNCHANGED <<P, size, n>>

Done == \A r \in Ranks : pc[r][1] = Most
Next == (\E r \in Ranks : Join(r)) \/ Complete \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

SameCall == \A r, q \in Ranks : in[r] /\ in[q] => pc[r] = pc[q]
NoClash == ~clash
RightRead == Done => \A g \in 1..G : rd[<<(g - 1) % P, (g - 1) \div P>>] = <<First(g), size[g]>>
Right == Done => wr = [d \in 0..(G * n - 1) |-> <<(d \div n) + 1, d % n>>]

\* ---- grids: what is read off the first two traces and the last ------------------
Line(a, b, i) == <<a[1] + (i \div b[2]) * a[3], b[1] + (i % b[2]) * b[3]>>     \* <<start, count, increment>>
Div(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)   \* towards zero
             IN IF (x < 0) = (y < 0) THEN q ELSE -q
Grid(nt, l1, l2, l3) ==
  LET row == nt > 1 /\ l2[1] = l1[1] /\ l2[2] # l1[2]
      xi == IF row THEN l2[2] - l1[2] ELSE 1
      xc == IF row THEN Div(l3[2] - l1[2], xi) + 1 ELSE 1
      ic == nt \div xc
      ii == IF ic > 1 /\ l3[1] # l1[1] THEN Div(l3[1] - l1[1], ic - 1) ELSE 1
  IN [a |-> <<l1[1], ic, ii>>, b |-> <<l1[2], xc, xi>>]
Pos(gr, l) == Div(l[1] - gr.a[1], gr.a[3]) * gr.b[2] + Div(l[2] - gr.b[1], gr.b[3])
ASSUME \A ic, xc \in 1..GRID, ii, xi \in {-3, -1, 1, 2}, s \in {-2, 0, 5} :
  LET a == <<s, ic, ii>> b == <<-s, xc, xi>> nt == ic * xc
      ln(i) == Line(a, b, i)
      gr == Grid(nt, ln(0), ln(IF nt > 1 THEN 1 ELSE 0), ln(nt - 1))
  IN \A i \in 0..(nt - 1) : Pos(gr, ln(i)) = i
=============================================================================

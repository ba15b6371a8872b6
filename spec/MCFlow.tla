------------------------------- MODULE MCFlow -------------------------------
(* The design of C15 and C16: a group of files is spread over the processes  *)
(* file by file; every entry is numbered over processes, then files, then    *)
(* traces; the sort gives every number a place; each process then reads and  *)
(* writes block by block, joining in with empty blocks until the process     *)
(* with the most traces is done.  All calls are collective.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PROCS, MAXFILES, MAXNT, KEYS, BLOCKS

VARIABLES P, nt, key, blk, srt,      \* the input, fixed by Init
          pc, out, clash             \* pc[r] = <<file, calls made on it, in a call?>>
vars == <<P, nt, key, blk, srt, pc, out, clash>>

NF == Len(nt)
Size(n, r) == (n \div P) + (IF r < n % P THEN 1 ELSE 0)
Off(n, r) == r * (n \div P) + (IF r < n % P THEN r ELSE n % P)
RECURSIVE SumTo(_, _)
SumTo(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumTo(f, k - 1)
Ranks == 0..(P - 1)

\* ---- the serial meaning ----------------------------------------------------
Traces == {<<f, t>> : f \in 1..NF, t \in 0..(MAXNT - 1)} \cap {<<f, t>> \in (1..NF) \X (0..MAXNT) : t < nt[f]}
Before(a, b) ==
  IF srt THEN \/ key[a] < key[b]
              \/ key[a] = key[b] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
  ELSE a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Place(x) == Cardinality({y \in Traces : Before(y, x)})

\* ---- what the processes do --------------------------------------------------
Lnt(r, f) == Size(nt[f], r)
Local(r) == LET g(f) == Lnt(r, f) IN SumTo(g, NF)
First(r) == LET g(q) == Local(q - 1) IN SumTo(g, r)        \* number of the first entry of r
LOff(r, f) == LET g(q) == Lnt(r, q) IN SumTo(g, f - 1)
Gtn(r, f, i) == First(r) + LOff(r, f) + i
Entry(n) == CHOOSE e \in {<<r, f, i>> : r \in Ranks, f \in 1..NF, i \in 0..(MAXNT - 1)} :
              e[3] < Lnt(e[1], e[2]) /\ Gtn(e[1], e[2], e[3]) = n
TraceOf(e) == <<e[2], Off(nt[e[2]], e[1]) + e[3]>>
Numbers == 0..(Cardinality(Traces) - 1)
Ltn(x) == x[2] * NF + (x[1] - 1)
SortedBefore(a, b) == LET x == TraceOf(Entry(a)) y == TraceOf(Entry(b)) IN
  key[x] < key[y] \/ (key[x] = key[y] /\ Ltn(x) < Ltn(y))
Dest(r, f, i) ==
  IF srt THEN LET n == Gtn(r, f, i) IN Cardinality({m \in Numbers : SortedBefore(m, n)})
  ELSE LET g(q) == nt[q] IN SumTo(g, f - 1) + Off(nt[f], r) + i

Ceil(a, b) == (a \div b) + (IF a % b > 0 THEN 1 ELSE 0)
Biggest(f) == CHOOSE n \in {Lnt(r, f) : r \in Ranks} : \A r \in Ranks : Lnt(r, f) <= n
Extra(r, f) == (Biggest(f) \div blk) + (IF Biggest(f) % blk > 0 THEN 1 ELSE 0) - Ceil(Lnt(r, f), blk)
Calls(r, f) == Ceil(Lnt(r, f), blk) + Extra(r, f)
Block(r, f, c) == {<<Dest(r, f, i), TraceOf(<<r, f, i>>)>> : i \in {j \in 0..(MAXNT - 1) : j \div blk = c /\ j < Lnt(r, f)}}

Init ==
  /\ P \in PROCS /\ blk \in BLOCKS /\ srt \in BOOLEAN
  /\ nt \in UNION {[1..n -> 0..MAXNT] : n \in 1..MAXFILES}
  /\ key \in [{<<f, t>> \in (1..Len(nt)) \X (0..MAXNT) : t < nt[f]} -> IF srt THEN KEYS ELSE {0}]
  /\ pc = [r \in Ranks |-> <<1, 0, FALSE>>]
  /\ out = <<>> /\ clash = FALSE

Join(r) ==
  /\ ~pc[r][3] /\ pc[r][1] <= NF
  /\ IF pc[r][2] < Calls(r, pc[r][1]) THEN pc' = [pc EXCEPT ![r][3] = TRUE]
     ELSE pc' = [pc EXCEPT ![r] = <<@[1] + 1, 0, FALSE>>]
  /\ UNCHANGED <<P, nt, key, blk, srt, out, clash>>

\* all processes are in the call: it is done
Complete ==
  /\ \A r \in Ranks : pc[r][3]
  /\ LET put == UNION {Block(r, pc[r][1], pc[r][2]) : r \in Ranks}
         at == {p[1] : p \in put}
     IN /\ clash' = (clash \/ Cardinality(at) # Cardinality(put) \/ at \cap DOMAIN out # {})
        /\ out' = [d \in at |-> (CHOOSE p \in put : p[1] = d)[2]] @@ out
  /\ pc' = [r \in Ranks |-> <<pc[r][1], pc[r][2] + 1, FALSE>>]
  /\ UNCHANGED <<P, nt, key, blk, srt>>

Done == \A r \in Ranks : pc[r][1] > NF
Next == (\E r \in Ranks : Join(r)) \/ Complete \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* deadlock checking: a process left alone in a call
SameCall == \A r, q \in Ranks : pc[r][3] /\ pc[q][3] => pc[r][1] = pc[q][1] /\ pc[r][2] = pc[q][2]
NoClash == ~clash
Right == Done => out = [d \in Numbers |-> CHOOSE x \in Traces : Place(x) = d]
=============================================================================

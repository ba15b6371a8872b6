------------------------------ MODULE DataFile ------------------------------
(* C02: the meaning of the byte-level file interface.  A file is a sequence  *)
(* of bytes; a collective request is, per process, a list of blocks, and has *)
(* the effect of the blocks transferred one by one.                          *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* the blocks <<offset, length>> of one process's request, in data order
BlocksOf(kind, a) ==
  CASE kind = "contig" -> <<[o |-> a.off, n |-> a.n]>>
    [] kind = "stride" -> [k \in 1..a.nb |-> [o |-> a.off + (k - 1) * a.osz, n |-> a.bsz]]
    [] kind = "list"   -> [k \in 1..Len(a.offs) |-> [o |-> a.offs[k], n |-> a.bsz]]

\* where in the data block k starts (all blocks of a request are equally long)
DataPos(blks, k) == (k - 1) * blks[k].n

ReadBytes(file, blks) ==
  IF blks = <<>> \/ blks[1].n = 0 THEN <<>>
  ELSE LET n == blks[1].n IN
       [i \in 1..(n * Len(blks)) |->
          file[blks[(i - 1) \div n + 1].o + ((i - 1) % n) + 1]]

InFile(file, blks) == \A k \in 1..Len(blks) : blks[k].o + blks[k].n <= Len(file)

Unknown == -1      \* a byte nobody has written: MPI leaves its value open
Matches(got, want) == /\ Len(got) = Len(want)
                      /\ \A i \in 1..Len(want) : want[i] = Unknown \/ got[i] = want[i]

\* one block written: the file grows if needed
WriteBlock(file, o, n, data, from) ==
  IF n = 0 THEN file
  ELSE [i \in 1..Max2(Len(file), o + n) |->
          IF i > o /\ i <= o + n THEN data[from + i - o]
          ELSE IF i <= Len(file) THEN file[i] ELSE Unknown]

RECURSIVE WriteBlocks(_, _, _, _)
WriteBlocks(file, blks, data, k) ==
  IF k > Len(blks) THEN file
  ELSE WriteBlocks(WriteBlock(file, blks[k].o, blks[k].n, data, DataPos(blks, k)), blks, data, k + 1)

\* all processes, one after the other (their blocks do not overlap)
RECURSIVE WriteAll(_, _, _, _)
WriteAll(file, kind, args, r) ==
  IF r > Len(args) THEN file
  ELSE WriteAll(WriteBlocks(file, BlocksOf(kind, args[r]), args[r].data, 1), kind, args, r + 1)

SetSize(file, n) == [i \in 1..n |-> IF i <= Len(file) THEN file[i] ELSE Unknown]
=============================================================================

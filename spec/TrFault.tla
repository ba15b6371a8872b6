------------------------------ MODULE TrFault -------------------------------
(* C04: histories in which file operations fail on some processes.  Every    *)
(* result carries ff, the number of file operations that told the library on *)
(* that process that they failed during the call, whether the failure was    *)
(* injected or real, and err, the error state afterwards.                    *)
(*   f     name -> contents, where they are known      h  handle -> name     *)
(*   dead  handles on which something beyond a transfer failed on a process  *)
(*   failed processes on which something failed so far                       *)
EXTENDS TraceRun, DataFile

FaSt0(t) == [f |-> <<>>, h |-> <<>>, m |-> <<>>, dead |-> {}, lost |-> {}, failed |-> {}]

Ranks(e) == 1..Len(e.v)
Bad(e) == {r \in Ranks(e) : e.v[r].ff > 0}
Known(s, e) == e.o \notin s.dead /\ s.h[e.o] \notin s.lost
File(s, e) == s.f[s.h[e.o]]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

\* what a process whose write failed addressed may hold anything afterwards
RECURSIVE Blank(_, _, _)
Blank(file, blks, k) ==
  IF k > Len(blks) THEN file
  ELSE Blank([i \in 1..Len(file) |-> IF i > blks[k].o /\ i <= blks[k].o + blks[k].n THEN Unknown ELSE file[i]],
             blks, k + 1)
RECURSIVE WriteSome(_, _, _, _, _)
WriteSome(file, kind, args, bads, r) ==
  IF r > Len(args) THEN file
  ELSE WriteSome(IF r \in bads THEN Blank(file, BlocksOf(kind, args[r]), 1)
                 ELSE WriteBlocks(file, BlocksOf(kind, args[r]), args[r].data, 1),
                 kind, args, bads, r + 1)
\* whether a file's length depends on what did not happen
Extends(file, e, bads) ==
  \E r \in bads : LET b == BlocksOf(e.kind, e.a[r]) IN
                  \E k \in DOMAIN b : b[k].n > 0 /\ b[k].o + b[k].n > Len(file)

FaUpd0(s, e) ==
  CASE e.op = "put"   -> [s EXCEPT !.f = (e.name :> e.bytes) @@ s.f, !.lost = @ \ {e.name}]
    [] e.op = "dopen" ->
         LET t == [s EXCEPT !.h = (e.o :> e.name) @@ s.h, !.m = (e.o :> e.mode) @@ s.m] IN
         IF Bad(e) # {} THEN [t EXCEPT !.dead = @ \cup {e.o}, !.lost = @ \cup {e.name}]
         ELSE [t EXCEPT !.dead = @ \ {e.o},
                        !.f = IF e.name \in DOMAIN s.f THEN s.f ELSE (e.name :> <<>>) @@ s.f]
    [] e.op = "dsetsize" -> IF ~Known(s, e) THEN s
                            ELSE IF Bad(e) # {} THEN [s EXCEPT !.lost = @ \cup {s.h[e.o]}]
                            ELSE [s EXCEPT !.f[s.h[e.o]] = SetSize(File(s, e), e.size)]
    [] e.op = "dwrite" ->
         IF ~Known(s, e) THEN s
         ELSE IF s.m[e.o] = "r" THEN s
         ELSE IF Extends(File(s, e), e, Bad(e)) THEN [s EXCEPT !.lost = @ \cup {s.h[e.o]}]
         ELSE [s EXCEPT !.f[s.h[e.o]] = WriteSome(File(s, e), e.kind, e.a, Bad(e), 1)]
    [] OTHER -> s
FaUpd(s, e) == LET t == FaUpd0(s, e) IN [t EXCEPT !.failed = @ \cup Bad(e)]

\* what a call must have delivered on the processes where nothing failed
FaData(s, e) ==
  CASE e.op = "dsize" -> IF Known(s, e) /\ \E r \in Ranks(e) \ Bad(e) : e.v[r].size # Len(File(s, e))
                         THEN "wrong size" ELSE ""
    [] e.op = "dread" ->
         IF \E r \in Ranks(e) : e.v[r].guard # 1 THEN "read stored outside the buffer"
         ELSE IF Known(s, e) /\ \E r \in Ranks(e) \ Bad(e) :
                   InFile(File(s, e), BlocksOf(e.kind, e.a[r])) /\
                   ~Matches(e.v[r].data, ReadBytes(File(s, e), BlocksOf(e.kind, e.a[r])))
              THEN "a failure elsewhere changed what a read returned"
         ELSE ""
    [] e.op = "cat" ->
         IF e.name \in s.lost \/ e.name \notin DOMAIN s.f THEN ""
         ELSE IF e.v[1].exists # 1 \/ ~Matches(e.v[1].bytes, s.f[e.name])
              THEN "a failure elsewhere changed what was written"
         ELSE ""
    [] OTHER -> ""

FaWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE LET now == s.failed \cup Bad(e) IN
  IF \E r \in now : e.v[r].err # 1 THEN "a failed file operation was not reported"
  ELSE IF now = {} /\ \E r \in Ranks(e) : e.v[r].err # 0 THEN "error reported without a failure"
  ELSE FaData(s, e)
=============================================================================

------------------------------- MODULE TrData -------------------------------
(* Recorded histories of the byte-level file interface against DataFile.     *)
(* state: f  name -> contents (absent names are not files), h handle -> name *)
EXTENDS TraceRun, DataFile

DfSt0(t) == [f |-> <<>>, h |-> <<>>, m |-> <<>>, lim |-> <<>>, fired |-> FALSE]

Ranks(e) == 1..Len(e.v)
File(s, e) == s.f[s.h[e.o]]
NoErr(e) == \A r \in Ranks(e) : e.v[r].err = 0

Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

DfUpd(s, e) ==
  CASE e.op = "put"   -> [s EXCEPT !.f = (e.name :> e.bytes) @@ s.f]
    [] e.op = "dopen" ->
         [s EXCEPT !.h = (e.o :> e.name) @@ s.h, !.m = (e.o :> e.mode) @@ s.m,
                   !.lim = (e.o :> IF "max" \in DOMAIN e THEN e.max ELSE 2147483647) @@ s.lim,
                   !.f = IF e.name \in DOMAIN s.f THEN s.f ELSE (e.name :> <<>>) @@ s.f]
    [] e.op = "dclose" ->
         IF s.m[e.o] = "t" THEN [s EXCEPT !.f = Without(s.f, s.h[e.o])] ELSE s
    [] e.op = "dsetsize" -> [s EXCEPT !.f[s.h[e.o]] = SetSize(File(s, e), e.size)]
    [] e.op = "dwrite" -> [s EXCEPT !.f[s.h[e.o]] = WriteAll(File(s, e), e.kind, e.a, 1)]
    [] OTHER -> s

DfWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF ~NoErr(e) THEN "error reported without a failure"
  ELSE
  CASE e.op = "put" -> ""
    [] e.op = "dopen" -> IF \A r \in Ranks(e) : e.v[r].null = 0 THEN "" ELSE "file not open"
    [] e.op = "dclose" -> ""
    [] e.op = "dsize" -> IF \A r \in Ranks(e) : e.v[r].size = Len(File(s, e)) THEN "" ELSE "wrong size"
    [] e.op = "dsetsize" -> ""
    [] e.op = "dread" ->
         IF \E r \in Ranks(e) : e.v[r].guard # 1 THEN "read stored outside the buffer"
         ELSE IF \E r \in Ranks(e) : e.v[r].mx > s.lim[e.o] THEN "one call transferred more than the limit"
         ELSE IF \E r \in Ranks(e) : ~Matches(e.v[r].data, ReadBytes(File(s, e), BlocksOf(e.kind, e.a[r])))
              THEN "read returned other bytes"
         ELSE ""
    [] e.op = "dwrite" ->
         IF \E r \in Ranks(e) : e.v[r].same # 1 THEN "write changed the caller's buffer"
         ELSE IF \E r \in Ranks(e) : e.v[r].mx > s.lim[e.o] THEN "one call transferred more than the limit"
         ELSE ""
    [] e.op = "cat" ->
         IF (e.v[1].exists = 1) # (e.name \in DOMAIN s.f) THEN "file exists or not, wrongly"
         ELSE IF e.v[1].exists = 1 /\ ~Matches(e.v[1].bytes, s.f[e.name]) THEN "file contents differ"
         ELSE ""
    [] OTHER -> "unknown event"
=============================================================================

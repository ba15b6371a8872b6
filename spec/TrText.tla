------------------------------- MODULE TrText -------------------------------
(* Recorded conversions and text headers against C20.                        *)
(* state: f file -> text (run-length, ASCII), w/r handles -> file            *)
EXTENDS TraceRun, Text

ASSUME InverseTables

TxSt0(t) == [f |-> <<>>, w |-> <<>>, t |-> <<>>, r |-> <<>>, c |-> <<>>]
TextOf(e) == LET r == AsHeader(e.trl) IN IF e.enc = "ascii" THEN r ELSE Map(EtoA, r)
TxUpd(s, e) ==
  CASE e.op = "fput"   -> [s EXCEPT !.f = (e.name :> TextOf(e)) @@ s.f]
    [] e.op = "wopen"  -> [s EXCEPT !.w = (e.o :> e.name) @@ s.w,
                                    !.t = (e.o :> AsHeader(<<>>)) @@ s.t]
    [] e.op = "wtext"  -> [s EXCEPT !.t[e.o] = AsHeader(e.rl)]
    [] e.op = "wclose" -> [s EXCEPT !.f = (s.w[e.o] :> s.t[e.o]) @@ s.f]
    [] e.op = "ropen"  -> [s EXCEPT !.r = (e.o :> e.name) @@ s.r, !.c = (e.o :> e.api) @@ s.c]
    [] OTHER -> s

WhyChr(v) ==
  IF \E c \in 0..255 : v.a[c + 1] # EtoA(c) THEN "a character of EBCDIC is mapped to another one"
  ELSE IF \E c \in 0..255 : v.e[c + 1] # AtoE(c) THEN "a character of ASCII is mapped to another one"
  ELSE IF \E c \in 0..255 : (v.pa[c + 1] = 1) # PrintA(c) \/ (v.pe[c + 1] = 1) # PrintE(c)
       THEN "printable characters are not recognised"
  ELSE ""

WhyRtext(s, e, v) ==
  LET t == s.f[s.r[e.o]]
      want == IF s.c[e.o] = "c" THEN ToNul(t) ELSE t
  IN IF v.len # RLen(want, 1) THEN "the text has another length"
     ELSE IF v.rl # want THEN "the text read differs from the text stored"
     ELSE ""
TxWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE IF \E r \in 1..Len(e.v) : e.v[r].err # 0 THEN "error reported without a failure"
  ELSE IF e.op = "chr" THEN WhyChr(e.v[1])
  ELSE IF e.op = "rtext"
       THEN LET bad2 == {r \in 1..Len(e.v) : WhyRtext(s, e, e.v[r]) # ""} IN
            IF bad2 = {} THEN "" ELSE WhyRtext(s, e, e.v[CHOOSE r \in bad2 : TRUE])
  ELSE ""
=============================================================================

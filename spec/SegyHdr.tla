------------------------------ MODULE SegyHdr ------------------------------
(* The 240-byte SEG-Y trace header as 120 signed 16-bit words, and where     *)
(* each quantity of the library lives in it.  A header value is              *)
(*   [k: known?, raw: word number -> value (absent words are 0),             *)
(*    ov: quantity -> value stored over the raw words]                       *)
(* Scaled quantities (coordinates, elevations) are in units of 1/10000.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MCopy == 0
MLtn == 1
MGtn == 2

F(loc, sc) == [t |-> "f", loc |-> loc, sc |-> sc]
L(loc) == [t |-> "l", loc |-> loc, sc |-> 0]
S(loc) == [t |-> "s", loc |-> loc, sc |-> 0]

\* first byte (from 1) of each quantity, as in the SEG-Y revision 1 standard
Layout ==
  ( 3 :> L(1))      @@ ( 4 :> L(13))     @@ ( 5 :> L(5))      @@ ( 6 :> L(25)) @@
  ( 7 :> S(115))    @@ ( 8 :> S(117))    @@ ( 9 :> S(29))     @@ (10 :> L(17)) @@
  (11 :> F(197, 201)) @@ (12 :> S(31))   @@ (13 :> S(33))     @@ (14 :> L(37)) @@
  (15 :> F(41, 69)) @@ (16 :> F(45, 69)) @@ (17 :> F(49, 69)) @@ (18 :> F(61, 69)) @@
  (19 :> F(65, 69)) @@ (20 :> F(73, 71)) @@ (21 :> F(77, 71)) @@ (22 :> F(81, 71)) @@
  (23 :> F(85, 71)) @@ (24 :> F(181, 71)) @@ (25 :> F(185, 71)) @@ (26 :> L(189)) @@
  (27 :> L(193))    @@ (28 :> S(211))    @@ (29 :> S(203))

W(loc) == (loc - 1) \div 2          \* word number (from 0) of a byte position

WordsOf(m) == LET y == Layout[m] IN
  IF y.t = "s" THEN {W(y.loc)}
  ELSE IF y.t = "l" THEN {W(y.loc), W(y.loc) + 1}
  ELSE {W(y.loc), W(y.loc) + 1, W(y.sc)}

Covered(M) == UNION {WordsOf(m) : m \in M}

Int32(hi, lo) == hi * 65536 + (lo % 65536)

\* g: word number -> value
Scaled(v, s) == IF s = 0 \/ s = 1 THEN v * 10000
                ELSE IF s > 0 THEN v * s * 10000
                ELSE v * (10000 \div (-s))
Decode(g(_), m) == LET y == Layout[m] IN
  CASE y.t = "s" -> g(W(y.loc))
    [] y.t = "l" -> Int32(g(W(y.loc)), g(W(y.loc) + 1))
    [] y.t = "f" -> LET v == Int32(g(W(y.loc)), g(W(y.loc) + 1)) IN
                    IF v = 0 THEN 0 ELSE Scaled(v, g(W(y.sc)))

NoHdr == [k |-> FALSE, raw |-> <<>>, ov |-> <<>>]
RawHdr(pairs) == [k |-> TRUE, ov |-> <<>>,
                  raw |-> [w \in {pairs[j][1] : j \in DOMAIN pairs} |->
                             (CHOOSE p \in {pairs[j] : j \in DOMAIN pairs} : p[1] = w)[2]]]

RuleSet(rule) == {rule[q] : q \in DOMAIN rule}
Pos(rule, m) == CHOOSE q \in DOMAIN rule : rule[q] = m
Stored(rule) == {m \in RuleSet(rule) : m \in DOMAIN Layout}

\* the header a row of parameters is written as
HdrOfRow(rule, row) ==
  [k |-> TRUE,
   raw |-> IF MCopy \in RuleSet(rule) THEN RawHdr(row[Pos(rule, MCopy)]).raw ELSE <<>>,
   ov |-> [m \in Stored(rule) |-> row[Pos(rule, m)]]]

RawAt(h, w) == IF w \in DOMAIN h.raw THEN h.raw[w] ELSE 0
Value(h, m) == IF m \in DOMAIN h.ov THEN h.ov[m]
               ELSE LET g(w) == RawAt(h, w) IN Decode(g, m)

\* do 120 words found in a file say what h says?
HdrMatches(words, h) ==
  \/ ~h.k
  \/ /\ Len(words) = 120
     /\ LET cov == Covered(DOMAIN h.ov)
            g(w) == words[w + 1]
        IN /\ \A w \in (0..119) \ cov : words[w + 1] = RawAt(h, w)
           /\ \A m \in DOMAIN h.ov : Decode(g, m) = h.ov[m]

\* does a row delivered by a read say what h says (trace number tn)?
RowMatches(rule, row, h, tn) ==
  /\ Len(row) = Len(rule)
  /\ \A q \in DOMAIN rule :
       LET m == rule[q] IN
       IF m = MLtn THEN row[q] = tn
       ELSE IF m = MGtn THEN TRUE           \* reading one file says nothing about it
       ELSE IF m = MCopy THEN HdrMatches(row[q], h)
       ELSE ~h.k \/ row[q] = Value(h, m)
=============================================================================

------------------------------- MODULE Handle -------------------------------
(* C25: the handles of the C interface.  A handle is a share in an object;    *)
(* an object may itself hold shares in others (a file or set in its PIOL, a   *)
(* parameter structure in its rule).  An object exists exactly as long as     *)
(* anything holds a share in it.                                              *)
(*   hs   : handle |-> object        (open handles)                           *)
(*   objs : object |-> objects it holds shares in  (living objects)           *)
EXTENDS FiniteSets, TLC

Ran(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Reach(_, _)
Reach(objs, os) ==
  LET n == os \cup UNION {objs[o] : o \in os}
  IN IF n = os THEN os ELSE Reach(objs, n)
\* the objects that live, given the handles
Living(hs, objs) == Reach(objs, Ran(hs))
Restrict(objs, os) == [o \in os |-> objs[o]]

HNew(s, h, o, parts) ==
  [hs |-> (h :> o) @@ s.hs, objs |-> (o :> parts) @@ s.objs]
\* a second share of what h shares
HDel(s, h) ==
  LET hs == [x \in DOMAIN s.hs \ {h} |-> s.hs[x]]
  IN [hs |-> hs, objs |-> Restrict(s.objs, Living(hs, s.objs))]
H0 == [hs |-> <<>>, objs |-> <<>>]
=============================================================================

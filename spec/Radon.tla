------------------------------- MODULE Radon --------------------------------
(* C17: radon gathers to angle gathers.                                       *)
(* The input is a file of gathers, one after another: a gather is a maximal   *)
(* run of traces of one inline and crossline.  Every gather becomes n angle   *)
(* traces at its own place.  Sample z of angle j is sample z of the k-th      *)
(* radon trace of the same gather,                                            *)
(*     k = round(v / cos(angle j)) / bin,   v the velocity of the model trace *)
(* with that inline and crossline at the time of sample z; zero if there is   *)
(* no such trace (nor for k = 0).                                             *)
EXTENDS Flow

\* secants of 0, 1/2, 1, ... 60 degrees, in 1/100000
SecTable == <<
100000, 100004, 100015, 100034, 100061, 100095, 100137, 100187, 100244, 100309,
100382, 100463, 100551, 100647, 100751, 100863, 100983, 101111, 101247, 101391,
101543, 101703, 101872, 102049, 102234, 102428, 102630, 102842, 103061, 103290,
103528, 103774, 104030, 104295, 104569, 104853, 105146, 105449, 105762, 106085,
106418, 106761, 107114, 107479, 107853, 108239, 108636, 109044, 109464, 109895,
110338, 110793, 111260, 111740, 112233, 112738, 113257, 113789, 114335, 114896,
115470, 116059, 116663, 117283, 117918, 118569, 119236, 119920, 120622, 121341,
122077, 122833, 123607, 124400, 125214, 126047, 126902, 127778, 128676, 129597,
130541, 131509, 132501, 133519, 134563, 135634, 136733, 137860, 139016, 140203,
141421, 142672, 143956, 145274, 146628, 148019, 149448, 150916, 152425, 153977,
155572, 157213, 158902, 160639, 162427, 164268, 166164, 168117, 170130, 172205,
174345, 176552, 178829, 181180, 183608, 186116, 188708, 191388, 194160, 197029,
200000 >>
SecOf(half) == SecTable[half + 1]
RoundSec(v, half) == (v * SecOf(half) + 50000) \div 100000

SetMinOf(X) == CHOOSE x \in X : \A y \in X : x <= y

\* ---- gathers of a sequence of (inline, crossline) pairs ---------------------------
Starts(lines) == {i \in DOMAIN lines : i = 1 \/ lines[i] # lines[i - 1]}
RECURSIVE Asc(_)
Asc(X) == IF X = {} THEN <<>> ELSE LET m == SetMinOf(X) IN <<m>> \o Asc(X \ {m})
GathersOf(lines) ==
  LET st == Asc(Starts(lines))
      fin(k) == IF k < Len(st) THEN st[k + 1] - 1 ELSE Len(lines)
  IN [k \in DOMAIN st |-> [from |-> st[k], n |-> fin(k) - st[k] + 1, line |-> lines[st[k]]]]

\* ---- the velocity model -------------------------------------------------------------
\* where the time of sample z is a whole number of model intervals, either neighbour will do
VelPlaces(z, inc, vinc, vns) ==
  LET q == (z * inc) \div vinc
      cut(x) == SetMinOf({x, vns - 1})
  IN IF (z * inc) % vinc = 0 /\ q > 0 /\ inc # vinc THEN {cut(q), cut(q - 1)} ELSE {cut(q)}
ModelTrace(vm, line) == CHOOSE t \in DOMAIN vm.tr : <<Value(vm.tr[t].h, 26), Value(vm.tr[t].h, 27)>> = line

\* ---- the angle gathers ----------------------------------------------------------------
\* an: [vm: name of the model, vel: its samples as integers, bin, n, half: angle increment in half degrees]
Picks(vm, an, line, ns, inc, j, z) ==
  LET t == ModelTrace(vm, line)
  IN {RoundSec(an.vel[t][p + 1], j * an.half) \div an.bin : p \in VelPlaces(z, inc, vm.inc, vm.ns)}

Near(a, b) == a - b \in {-1, 0, 1}
AngleWhy(fs, set, out, P) ==
  LET g == CHOOSE x \in GroupKeys(fs, set) : TRUE
      an == set.angle
      vm == fs[an.vm]
      mem == Members(fs, set, g)
      w == Wanted(fs, mem, set.sort)
      tr(i) == fs[mem[w[i][1]]].tr[w[i][2]]
      fm(i) == fs[mem[w[i][1]]]
      lines == [i \in DOMAIN w |-> <<Value(tr(i).h, 26), Value(tr(i).h, 27)>>]
      gs == GathersOf(lines)
      G == Len(gs)
      at(k, j) == (k - 1) * an.n + j + 1
      hd(k, j, m) == LET words == out.hdr[at(k, j)] h(x) == words[x + 1] IN Decode(h, m)
      okS(k, j, z) ==
        \E q \in Picks(vm, an, gs[k].line, g[1], g[2], j, z) :
          LET got == out.trc[at(k, j)][z + 1] IN
          IF q > 0 /\ q < gs[k].n
          THEN LET i == gs[k].from + q IN got = Sample(fm(i), tr(i).s[z + 1])
          ELSE got = 0
  IN IF out.ns # g[1] THEN "the angle gathers have another number of samples"
     ELSE IF ~Near(out.inc, (872665 * an.half) \div 100) THEN "the angle gathers have another increment"
     ELSE IF out.size # FileSize(G * an.n, g[1]) \/ Len(out.trc) # G * an.n THEN "there is not one angle gather for every gather"
     ELSE IF \E k \in 1..G, j \in 0..(an.n - 1) : <<hd(k, j, 26), hd(k, j, 27)>> # gs[k].line
          THEN "an angle gather is labelled with another line"
     ELSE IF \E k \in 1..G, j \in 0..(an.n - 1), z \in 0..(g[1] - 1) : ~okS(k, j, z)
          THEN "a sample of an angle gather was taken from the wrong place"
     ELSE ""

\* the same output after operations on every trace: img has the images of the plain angle gathers
AfterWhy(plain, img, out) ==
  IF out.size # plain.size \/ out.ns # plain.ns \/ Len(out.trc) # Len(plain.trc) THEN "operations on angle gathers changed their number"
  ELSE IF out.hdr # plain.hdr THEN "operations on angle gathers changed their headers"
  ELSE IF out.trc # img THEN "the operations were not applied once each to every angle trace"
  ELSE ""
=============================================================================

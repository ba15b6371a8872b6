-------------------------------- MODULE Text --------------------------------
(* C20: text headers.  The tables are the US EBCDIC code page as published    *)
(* (taken from iconv's EBCDIC-US, not from the library), plus the fill byte   *)
(* 255; characters without a counterpart become the substitute character.     *)
EXTENDS Integers, Sequences, FiniteSets

ToE == <<   \* ASCII code + 1 -> EBCDIC
    0,   1,   2,   3,  55,  45,  46,  47,  22,   5,  37,  11,  12,  13,  14,  15,
   16,  17,  18,  19,  60,  61,  50,  38,  24,  25,  63,  39,  28,  29,  30,  31,
   64,  90, 127, 123,  91, 108,  80, 125,  77,  93,  92,  78, 107,  96,  75,  97,
  240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 122,  94,  76, 126, 110, 111,
  124, 193, 194, 195, 196, 197, 198, 199, 200, 201, 209, 210, 211, 212, 213, 214,
  215, 216, 217, 226, 227, 228, 229, 230, 231, 232, 233,  63, 224,  63,  63, 109,
  121, 129, 130, 131, 132, 133, 134, 135, 136, 137, 145, 146, 147, 148, 149, 150,
  151, 152, 153, 162, 163, 164, 165, 166, 167, 168, 169, 192,  79, 208, 161,   7,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,
   63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63,  63, 255 >>
ToA == <<   \* EBCDIC code + 1 -> ASCII
    0,   1,   2,   3,  26,   9,  26, 127,  26,  26,  26,  11,  12,  13,  14,  15,
   16,  17,  18,  19,  26,  26,   8,  26,  24,  25,  26,  26,  28,  29,  30,  31,
   26,  26,  26,  26,  26,  10,  23,  27,  26,  26,  26,  26,  26,   5,   6,   7,
   26,  26,  22,  26,  26,  26,  26,   4,  26,  26,  26,  26,  20,  21,  26,  26,
   32,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  46,  60,  40,  43, 124,
   38,  26,  26,  26,  26,  26,  26,  26,  26,  26,  33,  36,  42,  41,  59,  26,
   45,  47,  26,  26,  26,  26,  26,  26,  26,  26,  26,  44,  37,  95,  62,  63,
   26,  26,  26,  26,  26,  26,  26,  26,  26,  96,  58,  35,  64,  39,  61,  34,
   26,  97,  98,  99, 100, 101, 102, 103, 104, 105,  26,  26,  26,  26,  26,  26,
   26, 106, 107, 108, 109, 110, 111, 112, 113, 114,  26,  26,  26,  26,  26,  26,
   26, 126, 115, 116, 117, 118, 119, 120, 121, 122,  26,  26,  26,  26,  26,  26,
   26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,  26,
  123,  65,  66,  67,  68,  69,  70,  71,  72,  73,  26,  26,  26,  26,  26,  26,
  125,  74,  75,  76,  77,  78,  79,  80,  81,  82,  26,  26,  26,  26,  26,  26,
   92,  26,  83,  84,  85,  86,  87,  88,  89,  90,  26,  26,  26,  26,  26,  26,
   48,  49,  50,  51,  52,  53,  54,  55,  56,  57,  26,  26,  26,  26,  26, 255 >>

SubA == 26
SubE == 63
AtoE(c) == ToE[c + 1]
EtoA(c) == ToA[c + 1]
PrintA(c) == c >= 32 /\ c <= 126
PrintE(c) == PrintA(EtoA(c))
InBoth(c) == AtoE(c) # SubE \/ c = SubA

\* the tables are inverse to each other wherever both sides have the character
InverseTables == \A c \in 0..255 :
  /\ InBoth(c) => EtoA(AtoE(c)) = c
  /\ (EtoA(c) # SubA \/ c = SubE) => AtoE(EtoA(c)) = c

\* run-length encoded text <<<<code, count>>, ...>>
RECURSIVE RLen(_, _)
RLen(r, k) == IF k > Len(r) THEN 0 ELSE r[k][2] + RLen(r, k + 1)
RECURSIVE Norm(_, _)
Norm(r, acc) ==
  IF r = <<>> THEN acc
  ELSE IF Head(r)[2] = 0 THEN Norm(Tail(r), acc)
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = Head(r)[1]
       THEN Norm(Tail(r), [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + Head(r)[2]>>])
       ELSE Norm(Tail(r), Append(acc, Head(r)))
Map(f(_), r) == Norm([k \in DOMAIN r |-> <<f(r[k][1]), r[k][2]>>], <<>>)
\* the first n characters
RECURSIVE Cut(_, _)
Cut(r, n) == IF r = <<>> \/ n = 0 THEN <<>>
             ELSE IF Head(r)[2] >= n THEN <<<<Head(r)[1], n>>>>
             ELSE <<Head(r)>> \o Cut(Tail(r), n - Head(r)[2])
Pad(r, n) == Norm(Append(r, <<0, n - RLen(r, 1)>>), <<>>)
\* what a C string shows of it
RECURSIVE ToNul(_)
ToNul(r) == IF r = <<>> \/ Head(r)[1] = 0 THEN <<>> ELSE <<Head(r)>> \o ToNul(Tail(r))
TextSz == 3200
AsHeader(r) == LET c == Cut(Norm(r, <<>>), TextSz) IN Pad(c, TextSz)
=============================================================================

------------------------------- MODULE TrEnc --------------------------------
(* Recorded number conversions against C21.                                  *)
EXTENDS TraceRun, IBM, Limbs

EnSt0(t) == 0
EnUpd(s, e) == s
B16(x) == <<(x \div 256) % 256, x % 256>>
B32(x) == B16(Hi(x)) \o B16(Lo(x))
B64(x) == B16(x[4]) \o B16(x[3]) \o B16(x[2]) \o B16(x[1])

One(k, x, o) ==
  IF o.same # 1 THEN "the variants of the conversion disagree"
  ELSE CASE k = "i16" -> IF o.b # B16(x) THEN "16-bit value has other bytes"
                         ELSE IF o.back # x THEN "16-bit value does not read back" ELSE ""
         [] k = "i32" -> IF o.b # B32(x) THEN "32-bit value has other bytes"
                         ELSE IF o.back # x THEN "32-bit value does not read back" ELSE ""
         [] k = "i64" -> IF o.b # B64(x) THEN "64-bit value has other bytes" ELSE ""
         [] k = "float" -> IF o.b # B32(x) THEN "float has other bytes"
                           ELSE IF o.back # x THEN "float does not read back" ELSE ""
         [] k = "ibm" -> IF o.back # FromIBM(x) THEN "IBM value decoded to another number" ELSE ""
         [] OTHER -> "unknown kind"
EnWhy(s, e) ==
  IF e.op = "END" THEN ""
  ELSE LET v == e.v[1].out IN
       IF Len(v) # Len(e.x) THEN "wrong number of answers"
       ELSE LET wrong == {j \in DOMAIN v : One(e.k, e.x[j], v[j]) # ""} IN
            IF wrong = {} THEN ""
            ELSE LET j == CHOOSE j \in wrong : \A i \in wrong : j <= i IN One(e.k, e.x[j], v[j])
=============================================================================

------------------------------ MODULE JsonImage ------------------------------
(***************************************************************************)
(* What values look like as JSON documents, and back.  A document is       *)
(* <<0, 0>> null, <<1, b>>, <<2, number>>, <<3, 8 bytes>> a float,         *)
(* <<4, text>>, <<5, documents>>, <<6, <<key, document>> by key>>.         *)
(* jd gives the documents of the JSON texts that occur inside values.      *)
(***************************************************************************)
EXTENDS Codec, Floats, TLC

Str(s) == CASE s = "bytes" -> <<98, 121, 116, 101, 115>>
            [] s = "real" -> <<114, 101, 97, 108>>
            [] s = "imaginary" -> <<105, 109, 97, 103, 105, 110, 97, 114, 121>>
            [] s = "modulus" -> <<109, 111, 100, 117, 108, 117, 115>>
            [] s = "argument" -> <<97, 114, 103, 117, 109, 101, 110, 116>>
            [] s = "timestamp" -> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>
            [] s = "timezone" -> <<116, 105, 109, 101, 122, 111, 110, 101>>
            [] s = "souris_type" -> <<115, 111, 117, 114, 105, 115, 95, 116, 121, 112, 101>>
            [] s = "octets" -> <<111, 99, 116, 101, 116, 115>>
            [] s = "JSON" -> <<74, 83, 79, 78>>

\* n in decimal with at least k digits
LOCAL Digits(n, k) == LET d == DecDigits(MagOf(n)) IN (IF Len(d) < k THEN [i \in 1..(k - Len(d)) |-> 48] ELSE <<>>) \o d
TimeText(t) ==
  LET y == IF t[1] \in 0..9999 THEN Digits(t[1], 4) ELSE IF t[1] < 0 THEN <<45>> \o Digits(-t[1], 4) ELSE <<43>> \o Digits(t[1], 4)
      leap == t[7] >= 1000000000
      ns == t[7] % 1000000000
      frac == IF ns = 0 THEN <<>>
              ELSE IF ns % 1000000 = 0 THEN <<46>> \o Digits(ns \div 1000000, 3)
              ELSE IF ns % 1000 = 0 THEN <<46>> \o Digits(ns \div 1000, 6)
              ELSE <<46>> \o Digits(ns, 9)
  IN y \o <<45>> \o Digits(t[2], 2) \o <<45>> \o Digits(t[3], 2) \o <<32>> \o Digits(t[4], 2) \o <<58>> \o Digits(t[5], 2)
     \o <<58>> \o Digits(t[6] + (IF leap THEN 1 ELSE 0), 2) \o frac

IntDoc(x) == IF Fits(x, "i64") \/ Fits(x, "u64") THEN <<<<2, x>>>> ELSE <<>>
FloatDoc(b) == IF Finite64(b) THEN <<<<3, b>>>> ELSE <<>>
NumsDoc(s) == <<5, [i \in 1..Len(s) |-> <<2, NumOf(s[i])>>]>>
Lookup(jd, t) == LET S == {i \in 1..Len(jd) : jd[i][1] = t} IN jd[CHOOSE i \in S : TRUE][2]
Obj(es) == <<6, Sorted(es)>>

\* the plain form: <<doc>>, or <<>> where JSON cannot hold it
RECURSIVE Plain(_, _)
Plain(v, jd) ==
  LET k == v[1]
      x == v[2]
      all(parts) == \A i \in 1..Len(parts) : parts[i] # <<>>
  IN CASE k = 0 -> <<<<4, <<x>>>>>>
       [] k = 1 -> <<<<4, x>>>>
       [] k = 2 -> <<Obj(<<<<Str("bytes"), NumsDoc(x)>>>>)>>
       [] k = 3 -> <<<<1, x>>>>
       [] k = 4 -> IntDoc(x)
       [] k = 5 -> LET a == IF x[1] = 0 THEN FloatDoc(x[2]) ELSE IntDoc(x[2])
                       b == IF x[1] = 0 THEN FloatDoc(x[3]) ELSE IntDoc(x[3])
                   IN IF a = <<>> \/ b = <<>> THEN <<>>
                      ELSE <<Obj(<<<<IF x[1] = 0 THEN Str("modulus") ELSE Str("real"), a[1]>>,
                                   <<IF x[1] = 0 THEN Str("argument") ELSE Str("imaginary"), b[1]>>>>)>>
       [] k = 6 -> <<Obj(<<<<Str("timestamp"), <<4, TimeText(x)>>>>>>)>>
       [] k = 7 -> <<Lookup(jd, x)>>
       [] k = 8 -> LET ps == [i \in 1..Len(x) |-> Plain(x[i][2], jd)]
                   IN IF all(ps) THEN <<<<6, [i \in 1..Len(x) |-> <<x[i][1], ps[i][1]>>]>>>> ELSE <<>>
       [] k = 9 -> <<<<0, 0>>>>
       [] k = 10 -> FloatDoc(x)
       [] k = 11 -> LET ps == [i \in 1..Len(x) |-> Plain(x[i], jd)]
                    IN IF all(ps) THEN <<<<5, [i \in 1..Len(x) |-> ps[i][1]]>>>> ELSE <<>>
       [] k = 12 -> <<Obj(<<<<Str("timezone"), <<4, x>>>>>>)>>
       [] k = 13 -> <<NumsDoc(x)>>
       [] k = 14 -> <<NumsDoc(x)>>
       [] k = 15 -> IF Finite32(x) THEN <<<<3, Widen(x)>>>> ELSE <<>>

\* the value of a document that has no type annotations
RECURSIVE Import(_)
Import(d) ==
  CASE d[1] = 0 -> <<9, 0>>
    [] d[1] = 1 -> <<3, d[2]>>
    [] d[1] = 2 -> <<4, d[2]>>
    [] d[1] = 3 -> <<10, d[2]>>
    [] d[1] = 4 -> <<1, d[2]>>
    [] d[1] = 5 -> <<11, [i \in 1..Len(d[2]) |-> Import(d[2][i])]>>
    [] d[1] = 6 -> <<8, [i \in 1..Len(d[2]) |-> <<d[2][i][1], Import(d[2][i][2])>>]>>

\* what a value is after a typed export and import
RECURSIVE Norm(_, _)
Norm(v, jd) ==
  CASE v[1] = 0 -> <<1, <<v[2]>>>>
    [] v[1] = 15 -> <<10, Widen(v[2])>>
    [] v[1] = 7 -> Import(Lookup(jd, v[2]))
    [] v[1] = 8 -> <<8, [i \in 1..Len(v[2]) |-> <<v[2][i][1], Norm(v[2][i][2], jd)>>]>>
    [] v[1] = 11 -> <<11, [i \in 1..Len(v[2]) |-> Norm(v[2][i], jd)]>>
    [] OTHER -> v

\* a document that a reader has to refuse or may take as an annotation
RECURSIVE Annotated(_)
Annotated(d) ==
  CASE d[1] = 5 -> \E i \in 1..Len(d[2]) : Annotated(d[2][i])
    [] d[1] = 6 -> \E i \in 1..Len(d[2]) : (d[2][i][1] = Str("souris_type") /\ d[2][i][2][1] \in {2, 3}) \/ Annotated(d[2][i][2])
    [] OTHER -> FALSE
=============================================================================

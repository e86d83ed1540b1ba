-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The serialised form of values and stores, independently of the code: a  *)
(* reader, and a family of writers.                                        *)
(*                                                                         *)
(* Values are <<kind, payload>>:                                           *)
(*   0 character   code point          8 map       <<key, value>> ... by key *)
(*   1 text        code points         9 null      0                       *)
(*   2 blob        bytes              10 double    8 bytes                 *)
(*   3 boolean     0 or 1             11 array     values                  *)
(*   4 integer     number             12 time zone code points             *)
(*   5 complex     <<0, 8 bytes, 8 bytes>> or <<1, number, number>>        *)
(*   6 timestamp   <<y, m, d, h, m, s, ns>>                                *)
(*   7 JSON        code points        13 IPv4 4 bytes   14 IPv6 8 segments *)
(*  15 single      4 bytes                                                 *)
(***************************************************************************)
EXTENDS Blob

LOCAL KeyLess(x, y) == LexLess(x[1], y[1])
RECURSIVE InsKey(_, _)
InsKey(s, e) == IF s = <<>> \/ KeyLess(e, s[1]) THEN <<e>> \o s ELSE IF s[1][1] = e[1] THEN <<e>> \o Tail(s) ELSE <<s[1]>> \o InsKey(Tail(s), e)
\* entries by key
Sorted(es) == FoldLeft(InsKey, <<>>, es)
KeysDistinct(es) == Cardinality({es[i][1] : i \in 1..Len(es)}) = Len(es)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
IsTime(t) == /\ t[1] \in -262143..262142 /\ t[2] \in 1..12 /\ t[3] >= 1 /\ t[3] <= MonthDays(t[1], t[2])
             /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59 /\ t[7] >= 0
             /\ t[7] < (IF t[6] = 59 THEN 2000000000 ELSE 1000000000)

\* the signs of the two parts of a complex number, 1 to 9
PartSigns == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>> >>

DecText(b, p, low, dict) == \* low: low half of the first byte; dict: <<>> or <<tree>>
  IF low = 0 THEN
    LET n == DecNat(b, p)
    IN IF ~n.ok THEN Bad ELSE IF n.v = Huge \/ n.p + n.v - 1 > Len(b) THEN Bad
       ELSE LET t == FromUtf8(SubSeq(b, n.p, n.p + n.v - 1)) IN IF t.ok THEN Ok(t.v, n.p + n.v) ELSE Bad
  ELSE IF low = 1 /\ dict # <<>> THEN
    LET s == DecBits(b, p)
    IN IF ~s.ok THEN Bad ELSE LET t == DecCode(dict[1], s.v) IN IF t.ok THEN Ok(t.v, s.p) ELSE Bad
  ELSE Bad
DecTextValue(b, p, dict) == IF p > Len(b) THEN Bad ELSE IF b[p] \div 16 # 1 THEN Bad ELSE DecText(b, p + 1, b[p] % 16, dict)

SmallInt(x) == LET n == NatOf(x[2]) IN IF x[1] = 1 THEN -n ELSE n
RECURSIVE DecInts(_, _, _, _)
DecInts(b, p, k, out) == IF k = 0 THEN Ok(out, p) ELSE LET n == DecNat(b, p) IN IF n.ok THEN DecInts(b, n.p, k - 1, Append(out, n.v)) ELSE Bad

RECURSIVE DecVal(_, _, _)
DecVal(b, p, dict) ==
  IF p > Len(b) THEN Bad
  ELSE
  LET k == b[p] \div 16
      low == b[p] % 16
      fixed(n) == IF low = 0 /\ p + n <= Len(b) THEN Ok(<<k, SubSeq(b, p + 1, p + n)>>, p + n + 1) ELSE Bad
      as(r) == IF r.ok THEN Ok(<<k, r.v>>, r.p) ELSE Bad
      count == IF low % 2 = 0 THEN Ok(low \div 2, p + 1) ELSE IF low = 1 THEN DecNat(b, p + 1) ELSE Bad
  IN CASE k = 0 -> LET n == DecNat(b, p + 1) IN IF low = 0 /\ n.ok /\ IsScalar(n.v) THEN Ok(<<0, n.v>>, n.p) ELSE Bad
       [] k = 1 -> as(DecText(b, p + 1, low, dict))
       [] k = 2 -> as(DecBlob(low, b, p + 1))
       [] k = 3 -> IF low <= 1 THEN Ok(<<3, low>>, p + 1) ELSE Bad
       [] k = 4 -> IF low <= 2 THEN as(DecInt(b, p + 1, low)) ELSE Bad
       [] k = 5 -> IF low = 0 THEN (IF p + 16 <= Len(b) THEN Ok(<<5, <<0, SubSeq(b, p + 1, p + 8), SubSeq(b, p + 9, p + 16)>>>>, p + 17) ELSE Bad)
                   ELSE IF low > 9 THEN Bad
                   ELSE LET re == DecInt(b, p + 1, PartSigns[low][1])
                        IN IF ~re.ok THEN Bad
                           ELSE LET im == DecInt(b, re.p, PartSigns[low][2])
                                IN IF im.ok THEN Ok(<<5, <<1, re.v, im.v>>>>, im.p) ELSE Bad
       [] k = 6 -> IF low > 2 THEN Bad
                   ELSE LET y == DecInt(b, p + 1, low)
                        IN IF ~y.ok THEN Bad
                           ELSE LET r == DecInts(b, y.p, 6, <<SmallInt(y.v)>>)
                                IN IF r.ok /\ IsTime(r.v) THEN Ok(<<6, r.v>>, r.p) ELSE Bad
       [] k = 7 -> IF low = 0 THEN as(DecTextValue(b, p + 1, dict)) ELSE Bad
       [] k = 8 -> IF ~count.ok THEN Bad
                   ELSE IF count.v > Len(b) THEN Bad
                   ELSE LET step(a, i) ==
                              IF ~a.ok THEN a
                              ELSE LET key == DecTextValue(b, a.p, dict)
                                   IN IF ~key.ok THEN Bad
                                      ELSE LET v == DecVal(b, key.p, dict)
                                           IN IF v.ok THEN Ok(Append(a.v, <<key.v, v.v>>), v.p) ELSE Bad
                            r == FoldLeft(step, Ok(<<>>, count.p), Idx(count.v))
                        IN IF r.ok /\ KeysDistinct(r.v) THEN Ok(<<8, Sorted(r.v)>>, r.p) ELSE Bad
       [] k = 9 -> IF low = 0 THEN Ok(<<9, 0>>, p + 1) ELSE Bad
       [] k = 10 -> fixed(8)
       [] k = 11 -> IF ~count.ok THEN Bad
                    ELSE IF count.v > Len(b) THEN Bad
                    ELSE LET step(a, i) == IF ~a.ok THEN a
                                           ELSE LET v == DecVal(b, a.p, dict) IN IF v.ok THEN Ok(Append(a.v, v.v), v.p) ELSE Bad
                         IN as(FoldLeft(step, Ok(<<>>, count.p), Idx(count.v)))
       [] k = 12 -> IF low = 0 THEN as(DecTextValue(b, p + 1, dict)) ELSE Bad
       [] k = 13 -> fixed(4)
       [] k = 14 -> IF low = 0 /\ p + 16 <= Len(b) THEN Ok(<<14, [i \in 1..8 |-> b[p + 2 * i - 1] + 256 * b[p + 2 * i]]>>, p + 17) ELSE Bad
       [] k = 15 -> fixed(4)

Magic == <<83, 79, 85, 82, 73, 83, 68, 66>> \* SOURISDB
DecStore(b) ==
  IF Len(b) < 9 \/ SubSeq(b, 1, 8) # Magic THEN Bad
  ELSE LET r == DecBlob(b[9] % 128, b, 10)
       IN IF ~r.ok THEN Bad
          ELSE LET t == IF b[9] >= 128 THEN DecTree(r.v, 1, 0, TRUE) ELSE Ok(<<>>, 1)
               IN IF ~t.ok THEN Bad
                  ELSE LET v == DecVal(r.v, t.p, IF b[9] >= 128 THEN <<t.v>> ELSE <<>>)
                       IN IF v.ok /\ v.v[1] = 8 /\ v.p = Len(r.v) + 1 /\ r.p = Len(b) + 1 THEN Ok(v.v[2], r.p) ELSE Bad

(***************************************************************************)
(* Writers.  A style w is [dict, str, len, pad, comp, rev]: the tree to    *)
(* use if any; "code" or "utf8" for text the tree covers; "short" or "int" *)
(* for lengths; needless bytes in numbers; the scheme of blobs; whether    *)
(* map entries are written in reverse.                                     *)
(***************************************************************************)
EncText(t, w) ==
  IF w.dict # <<>> /\ w.str = "code" /\ Covers(w.dict[1], t) THEN <<1, EncBits(EncCode(w.dict[1], t))>>
  ELSE LET u == Utf8Of(t) IN <<0, EncNat(Len(u)) \o u>>
EncTextValue(t, w) == LET e == EncText(t, w) IN <<16 + e[1]>> \o e[2]
SignOf(x, w) == IF x[1] = 1 THEN 2 ELSE IF w.sgn = 1 /\ Fits(x, "i128") THEN 1 ELSE 0
Concat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
RECURSIVE EncVal(_, _)
EncVal(v, w) ==
  LET k == v[1]
      x == v[2]
      hdr(n) == IF n < 7 /\ w.len = "short" THEN <<16 * k + 2 * n>> ELSE <<16 * k + 1>> \o EncInt(NumOf(n), w.pad)
      num(n) == EncInt(NumOf(n), w.pad)
  IN CASE k = 0 -> <<0>> \o num(x)
       [] k = 1 -> EncTextValue(x, w)
       [] k = 2 -> <<32 + Scheme(w.comp)>> \o EncBlob(w.comp, x)
       [] k = 3 -> <<48 + x>>
       [] k = 4 -> <<64 + SignOf(x, w)>> \o EncInt(x, w.pad)
       [] k = 5 -> IF x[1] = 0 THEN <<80>> \o x[2] \o x[3]
                   ELSE <<80 + (CHOOSE i \in 1..9 : PartSigns[i] = <<SignOf(x[2], w), SignOf(x[3], w)>>)>> \o EncInt(x[2], w.pad) \o EncInt(x[3], w.pad)
       [] k = 6 -> <<96 + SignOf(NumOf(x[1]), w)>> \o num(x[1]) \o num(x[2]) \o num(x[3]) \o num(x[4]) \o num(x[5]) \o num(x[6]) \o num(x[7])
       [] k = 7 -> <<112>> \o EncTextValue(x, w)
       [] k = 8 -> LET es == IF w.rev THEN Reverse(x) ELSE x
                   IN hdr(Len(x)) \o Concat([i \in 1..Len(x) |-> EncTextValue(es[i][1], w) \o EncVal(es[i][2], w)])
       [] k = 9 -> <<144>>
       [] k = 11 -> hdr(Len(x)) \o Concat([i \in 1..Len(x) |-> EncVal(x[i], w)])
       [] k = 12 -> <<192>> \o EncTextValue(x, w)
       [] k = 14 -> <<224>> \o Concat([i \in 1..8 |-> <<x[i] % 256, x[i] \div 256>>])
       [] OTHER -> <<16 * k>> \o x
EncStore(entries, w, comp) ==
  LET body == (IF w.dict # <<>> THEN EncTree(w.dict[1], TRUE) ELSE <<>>) \o EncVal(<<8, entries>>, w)
  IN Magic \o <<Scheme(comp) + (IF w.dict # <<>> THEN 128 ELSE 0)>> \o EncBlob(comp, body)

\* the text in a value, in any order
RECURSIVE TextOf(_)
TextOf(v) == CASE v[1] \in {1, 7, 12} -> v[2]
               [] v[1] = 8 -> Concat([i \in 1..Len(v[2]) |-> v[2][i][1] \o TextOf(v[2][i][2])])
               [] v[1] = 11 -> Concat([i \in 1..Len(v[2]) |-> TextOf(v[2][i])])
               [] OTHER -> <<>>
=============================================================================

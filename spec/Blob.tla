-------------------------------- MODULE Blob --------------------------------
(***************************************************************************)
(* The four ways in which a blob can be laid out: 0 plain, 1 run lengths,  *)
(* 2 LZ4 block, 3 prefix code.                                             *)
(***************************************************************************)
EXTENDS Text

LIMIT == 200000 \* the specification does not expand blobs beyond this; the result is then Bad

DecPlain(b, p) ==
  LET n == DecNat(b, p)
  IN IF n.ok /\ n.v # Huge /\ n.p + n.v - 1 <= Len(b) THEN Ok(SubSeq(b, n.p, n.p + n.v - 1), n.p + n.v) ELSE Bad
DecRle(b, p) ==
  LET n == DecNat(b, p)
  IN IF ~n.ok \/ n.v = Huge THEN Bad
     ELSE IF n.p + n.v - 1 > Len(b) \/ n.v % 2 # 0 THEN Bad
     ELSE Ok(FoldLeft(LAMBDA a, k : LET c == b[n.p + 2 * k - 2] x == b[n.p + 2 * k - 1] IN a \o [i \in 1..c |-> x],
                      <<>>, Idx(n.v \div 2)), n.p + n.v)

\* a length of LZ4 that goes on while the bytes are 255
RECURSIVE LzLen(_, _, _, _)
LzLen(b, p, hi, n) == IF p > hi \/ n > LIMIT THEN Bad ELSE IF b[p] = 255 THEN LzLen(b, p + 1, hi, n + 255) ELSE Ok(n + b[p], p + 1)
RECURSIVE Lz(_, _, _, _)
Lz(b, p, hi, out) == \* the block is b[p..hi]
  IF p > hi THEN Bad
  ELSE LET lit == IF b[p] \div 16 = 15 THEN LzLen(b, p + 1, hi, 15) ELSE Ok(b[p] \div 16, p + 1)
       IN IF ~lit.ok THEN Bad
          ELSE IF lit.p + lit.v - 1 > hi THEN Bad
          ELSE LET out1 == out \o SubSeq(b, lit.p, lit.p + lit.v - 1)
                   q == lit.p + lit.v
               IN IF q = hi + 1 THEN Ok(out1, q)
                  ELSE IF q + 1 > hi THEN Bad
                  ELSE LET off == b[q] + 256 * b[q + 1]
                           ml == IF b[p] % 16 = 15 THEN LzLen(b, q + 2, hi, 15) ELSE Ok(b[p] % 16, q + 2)
                       IN IF off = 0 \/ off > Len(out1) THEN Bad
                          ELSE IF ~ml.ok THEN Bad
                          ELSE IF Len(out1) + ml.v > LIMIT THEN Bad
                          ELSE LET base == Len(out1) - off
                               IN Lz(b, ml.p, hi, out1 \o [k \in 1..(ml.v + 4) |-> out1[base + 1 + ((k - 1) % off)]])
DecLz(b, p) ==
  LET n == DecNat(b, p)
  IN IF ~n.ok THEN Bad
     ELSE IF n.v = 0 THEN Ok(<<>>, n.p)
     ELSE LET c == DecNat(b, n.p)
          IN IF ~c.ok THEN Bad
             ELSE IF c.v = Huge \/ c.p + c.v - 1 > Len(b) THEN Bad
             ELSE LET r == Lz(b, c.p, c.p + c.v - 1, <<>>)
                  IN IF r.ok /\ Len(r.v) = n.v THEN Ok(r.v, c.p + c.v) ELSE Bad
DecHuff(b, p) ==
  IF p > Len(b) THEN Bad
  ELSE CASE b[p] = 0 -> Ok(<<>>, p + 1)
         [] b[p] = 1 -> LET n == DecNat(b, p + 1)
                        IN IF ~n.ok \/ n.v > LIMIT \/ n.p > Len(b) THEN Bad ELSE Ok([i \in 1..n.v |-> b[n.p]], n.p + 1)
         [] b[p] = 2 -> LET t == DecTree(b, p + 1, 0, FALSE)
                        IN IF ~t.ok THEN Bad
                           ELSE LET s == DecBits(b, t.p)
                                IN IF ~s.ok THEN Bad
                                   ELSE LET r == DecCode(t.v, s.v) IN IF r.ok THEN Ok(r.v, s.p) ELSE Bad
         [] OTHER -> Bad
DecBlob(c, b, p) == CASE c = 0 -> DecPlain(b, p) [] c = 1 -> DecRle(b, p) [] c = 2 -> DecLz(b, p) [] c = 3 -> DecHuff(b, p) [] OTHER -> Bad

(***** the specification's own writers *****)
EncPlain(x) == EncNat(Len(x)) \o x
LOCAL RunStep(a, y) == IF a # <<>> /\ a[Len(a)] = y /\ a[Len(a) - 1] < 255 THEN [a EXCEPT ![Len(a) - 1] = @ + 1] ELSE a \o <<1, y>>
Runs(x) == FoldLeft(RunStep, <<>>, x)
EncRle(x) == LET r == Runs(x) IN EncNat(Len(r)) \o r
\* as above but with every count 1: a legal, wasteful writer
EncRle1(x) == EncNat(2 * Len(x)) \o FoldLeft(LAMBDA a, y : a \o <<1, y>>, <<>>, x)
RECURSIVE Lz255(_)
Lz255(n) == IF n >= 255 THEN <<255>> \o Lz255(n - 255) ELSE <<n>>
LzToken(lit, ml) == <<16 * (IF lit >= 15 THEN 15 ELSE lit) + (IF ml >= 15 THEN 15 ELSE ml)>> \o (IF lit >= 15 THEN Lz255(lit - 15) ELSE <<>>)
LzLits(x) == LzToken(Len(x), 0) \o x
\* one literal run of `k`, a match that repeats the last `off` bytes, then the rest as literals
LzMatch(x, k, off, m) == LzToken(k, m - 4) \o SubSeq(x, 1, k) \o <<off % 256, off \div 256>> \o (IF m - 4 >= 15 THEN Lz255(m - 19) ELSE <<>>)
                         \o LzLits(SubSeq(x, k + m + 1, Len(x)))
\* where a match of x is possible
Repeats(x, k, off, m) == k >= off /\ k + m <= Len(x) /\ \A i \in 1..m : x[k + i] = x[k + 1 - off + ((i - 1) % off)]
EncLz(x) ==
  IF x = <<>> THEN <<0>>
  ELSE LET cands == {t \in {<<k, off, m>> : k \in {1, 2, 3, 4}, off \in {1, 2, 3, 4}, m \in {Len(x) - 5 - 1, Len(x) - 5 - 2, Len(x) - 5 - 3, 4, 5, 18, 19, 20}} :
                      t[3] >= 4 /\ t[1] + t[3] <= Len(x) - 5 /\ Repeats(x, t[1], t[2], t[3])}
           blk == IF cands = {} THEN LzLits(x) ELSE LET t == CHOOSE t \in cands : \A u \in cands : u[3] <= t[3] IN LzMatch(x, t[1], t[2], t[3])
       IN EncNat(Len(x)) \o EncNat(Len(blk)) \o blk
EncHuff(x) ==
  IF x = <<>> THEN <<0>>
  ELSE IF Cardinality(Symbols(x)) = 1 THEN <<1>> \o EncNat(Len(x)) \o <<x[1]>>
  ELSE LET t == TreeFor(x) IN <<2>> \o EncTree(t, FALSE) \o EncBits(EncCode(t, x))
\* the five writers and the scheme each writes
Scheme(c) == IF c = 4 THEN 1 ELSE c
EncBlob(c, x) == CASE c = 0 -> EncPlain(x) [] c = 1 -> EncRle(x) [] c = 2 -> EncLz(x) [] c = 3 -> EncHuff(x) [] c = 4 -> EncRle1(x)
=============================================================================

-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of code points: UTF-8, and prefix codes ("dictio-     *)
(* naries").  A code tree is <<0, left, right>> or <<1, symbol>>; a set    *)
(* bit goes left.                                                          *)
(***************************************************************************)
EXTENDS Nums, FiniteSets

Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0]

IsScalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Of(t) == FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, t)

\* accumulator: <<ok, output, code point so far, bytes still needed, least code point>>
LOCAL U8Step(a, x) ==
  IF ~a[1] THEN a
  ELSE IF a[4] = 0 THEN
    CASE x < 128 -> <<TRUE, Append(a[2], x), 0, 0, 0>>
      [] x >= 194 /\ x < 224 -> <<TRUE, a[2], x - 192, 1, 128>>
      [] x >= 224 /\ x < 240 -> <<TRUE, a[2], x - 224, 2, 2048>>
      [] x >= 240 /\ x < 245 -> <<TRUE, a[2], x - 240, 3, 65536>>
      [] OTHER -> <<FALSE, <<>>, 0, 0, 0>>
  ELSE IF x < 128 \/ x > 191 THEN <<FALSE, <<>>, 0, 0, 0>>
  ELSE LET c == a[3] * 64 + x - 128
       IN IF a[4] > 1 THEN <<TRUE, a[2], c, a[4] - 1, a[5]>>
          ELSE IF c >= a[5] /\ IsScalar(c) THEN <<TRUE, Append(a[2], c), 0, 0, 0>>
          ELSE <<FALSE, <<>>, 0, 0, 0>>
FromUtf8(b) == LET r == FoldLeft(U8Step, <<TRUE, <<>>, 0, 0, 0>>, b)
               IN IF r[1] /\ r[4] = 0 THEN Ok(r[2], 0) ELSE Bad

\* lexicographic order of texts (that of their UTF-8 bytes)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)

(*************************** numbers as encoded ****************************)
\* st: 0 unsigned, 1 positive, 2 negative
DecInt(b, p, st) ==
  IF p > Len(b) THEN Bad
  ELSE IF b[p] <= 239 THEN
    IF st = 2 THEN Ok(<<1, MagOf(256 - b[p])>>, p + 1) ELSE Ok(Num(0, Trim(<<b[p]>>)), p + 1)
  ELSE LET n == b[p] - 239
       IN IF p + n > Len(b) THEN Bad
          ELSE LET c == SubSeq(b, p + 1, p + n)
                   top == n = 16 /\ c[n] >= 128
               IN CASE st = 0 -> Ok(Num(0, Trim(c)), p + n + 1)
                    [] st = 1 -> IF top THEN Bad ELSE Ok(Num(0, Trim(c)), p + n + 1)
                    [] st = 2 -> IF n = 16 /\ ~top THEN Bad ELSE Ok(<<1, SubM(Pow2(8 * n), Trim(c))>>, p + n + 1)
                    [] OTHER -> Bad
DecNat(b, p) == LET r == DecInt(b, p, 0) IN IF r.ok THEN Ok(NatOf(r.v[2]), r.p) ELSE Bad

\* the writers: a number with `pad` needless bytes (pad = -1: the shortest form)
TwosComp(m, n) == LET d == SubM(Pow2(8 * n), m) IN d \o [i \in 1..(n - Len(d)) |-> 0]
NegLen(m) == CHOOSE n \in 1..16 : Cmp(m, Pow2(8 * n)) <= 0 /\ (n = 1 \/ Cmp(m, Pow2(8 * (n - 1))) = 1)
EncInt(x, pad) ==
  LET n0 == IF x[1] = 1 THEN NegLen(x[2]) ELSE Max2(1, Len(x[2]))
      c0 == IF x[1] = 1 THEN TwosComp(x[2], n0) ELSE IF x[2] = <<>> THEN <<0>> ELSE x[2]
  IN IF pad < 0 THEN (IF n0 = 1 /\ c0[1] <= 239 THEN c0 ELSE <<239 + n0>> \o c0)
     ELSE LET n == IF n0 + pad > 16 THEN 16 ELSE n0 + pad
          IN <<239 + n>> \o c0 \o [i \in 1..(n - n0) |-> IF x[1] = 1 THEN 255 ELSE 0]
EncNat(n) == EncInt(NumOf(n), -1)

(******************************** bit lists ********************************)
BitAt(b, p, i) == (b[p + i \div 8] \div (2 ^ (i % 8))) % 2
DecBits(b, p) ==
  LET n == DecNat(b, p)
  IN IF ~n.ok THEN Bad
     ELSE IF n.v = Huge \/ n.p + (n.v + 7) \div 8 - 1 > Len(b) THEN Bad
     ELSE Ok([i \in 1..n.v |-> BitAt(b, n.p, i - 1)], n.p + (n.v + 7) \div 8)
PackBits(s) == [k \in 1..((Len(s) + 7) \div 8) |->
                 FoldLeft(LAMBDA a, j : a * 2 + (LET i == 8 * k - j + 1 IN IF i <= Len(s) THEN s[i] ELSE 0), 0, Idx(8))]
EncBits(s) == EncNat(Len(s)) \o PackBits(s)

(******************************* code trees ********************************)
RECURSIVE DecTree(_, _, _, _)
DecTree(b, p, depth, wide) ==
  IF p > Len(b) \/ depth > 256 THEN Bad
  ELSE IF b[p] = 0 THEN
    LET l == DecTree(b, p + 1, depth + 1, wide)
    IN IF ~l.ok THEN Bad
       ELSE LET r == DecTree(b, l.p, depth + 1, wide)
            IN IF ~r.ok THEN Bad ELSE Ok(<<0, l.v, r.v>>, r.p)
  ELSE IF wide THEN
    LET c == DecNat(b, p)
    IN IF c.ok /\ c.v >= 1 /\ IsScalar(c.v - 1) THEN Ok(<<1, c.v - 1>>, c.p) ELSE Bad
  ELSE IF b[p] = 1 /\ p + 1 <= Len(b) THEN Ok(<<1, b[p + 1]>>, p + 2) ELSE Bad
RECURSIVE EncTree(_, _)
EncTree(t, wide) ==
  IF t[1] = 0 THEN <<0>> \o EncTree(t[2], wide) \o EncTree(t[3], wide)
  ELSE IF wide THEN EncNat(t[2] + 1) ELSE <<1, t[2]>>
RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = 1 THEN <<t[2]>> ELSE Leaves(t[2]) \o Leaves(t[3])
\* <<symbol, code>> for every leaf
RECURSIVE CodesFrom(_, _)
CodesFrom(t, c) == IF t[1] = 1 THEN {<<t[2], c>>} ELSE CodesFrom(t[2], Append(c, 1)) \cup CodesFrom(t[3], Append(c, 0))
\* the only symbol of a tree without branches takes one bit
Codes(t) == IF t[1] = 1 THEN {<<t[2], <<1>>>>} ELSE CodesFrom(t, <<>>)
Symbols(t) == {t[i] : i \in 1..Len(t)}
LOCAL Down(root, a, bit) ==
  IF root[1] = 1 THEN <<root, Append(a[2], root[2])>>
  ELSE LET n == IF bit = 1 THEN a[1][2] ELSE a[1][3]
       IN IF n[1] = 1 THEN <<root, Append(a[2], n[2])>> ELSE <<n, a[2]>>
DecCode(tree, bits) ==
  LET r == FoldLeft(LAMBDA a, bit : Down(tree, a, bit), <<tree, <<>>>>, bits)
  IN IF r[1] = tree THEN Ok(r[2], 0) ELSE Bad
CodeMap(tree) == LET cs == Codes(tree) IN [s \in {c[1] : c \in cs} |-> (CHOOSE c \in cs : c[1] = s)[2]]
Covers(tree, t) == Symbols(t) \subseteq {c[1] : c \in Codes(tree)}
EncCode(tree, t) == LET m == CodeMap(tree) IN FoldLeft(LAMBDA a, c : a \o m[c], <<>>, t)

\* the least number of bits any prefix code needs for the text
Freqs(t) == LET S == SetToSeq(Symbols(t)) IN [i \in 1..Len(S) |-> Len(SelectSeq(t, LAMBDA c : c = S[i]))]
RECURSIVE InsertSorted(_, _)
InsertSorted(s, x) == IF s = <<>> \/ x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o InsertSorted(Tail(s), x)
SortNats(s) == FoldLeft(InsertSorted, <<>>, s)
RECURSIVE MergeCost(_)
MergeCost(s) == IF Len(s) <= 1 THEN 0 ELSE LET m == s[1] + s[2] IN m + MergeCost(InsertSorted(SubSeq(s, 3, Len(s)), m))
OptimalBits(t) == IF Cardinality(Symbols(t)) = 1 THEN Len(t) ELSE MergeCost(SortNats(Freqs(t)))
\* a tree for the text: the specification's own
RECURSIVE InsNode(_, _)
InsNode(s, x) == IF s = <<>> \/ x[1] <= s[1][1] THEN <<x>> \o s ELSE <<s[1]>> \o InsNode(Tail(s), x)
RECURSIVE MergeTree(_)
MergeTree(s) == IF Len(s) = 1 THEN s[1][2]
                ELSE MergeTree(InsNode(SubSeq(s, 3, Len(s)), <<s[1][1] + s[2][1], <<0, s[1][2], s[2][2]>>>>))
TreeFor(t) == LET S == SetToSeq(Symbols(t)) f == Freqs(t)
              IN MergeTree(FoldLeft(InsNode, <<>>, [i \in 1..Len(S) |-> <<f[i], <<1, S[i]>>>>]))
=============================================================================

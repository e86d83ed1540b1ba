-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* What a value looks like when it is printed, read from the text: Match   *)
(* gives the position after the value printed at position i of text t, or  *)
(* 0 if what stands there is not that value.                               *)
(***************************************************************************)
EXTENDS JsonImage

LOCAL Lit(t, i, s) == IF i > 0 /\ i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s THEN i + Len(s) ELSE 0
LOCAL HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
LOCAL HexOf(s) == FoldLeft(LAMBDA a, c : IF a < 0 \/ a > 1000000000 \div 16 \/ HexDigit(c) < 0 THEN -1 ELSE a * 16 + HexDigit(c), IF s = <<>> THEN -1 ELSE 0, s)
\* the last position from i on where everything is in S
LOCAL RunEnd(t, i, S) == LET B == {j \in i..Len(t) : t[j] \notin S} IN IF B = {} THEN Len(t) ELSE (CHOOSE j \in B : \A k \in B : j <= k) - 1
LOCAL First(t, i, S) == LET B == {j \in i..Len(t) : t[j] \in S} IN IF B = {} THEN 0 ELSE CHOOSE j \in B : \A k \in B : j <= k

(******************************** text *************************************)
LOCAL Short(c) == CASE c = 48 -> 0 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 39 -> 39 [] c = 34 -> 34 [] c = 92 -> 92 [] OTHER -> -1
\* one character of a text between quotes q: itself, or an escape for it
LOCAL CharAt(t, i, c, q) ==
  IF i = 0 \/ i > Len(t) THEN 0
  ELSE IF t[i] # 92 THEN IF t[i] = c /\ c # q /\ c >= 32 /\ c # 127 THEN i + 1 ELSE 0
  ELSE IF i = Len(t) THEN 0
  ELSE IF t[i + 1] = 117 THEN LET e == First(t, i, {125}) IN IF e > 0 /\ e - i \in 4..9 /\ t[i + 2] = 123 /\ HexOf(SubSeq(t, i + 3, e - 1)) = c THEN e + 1 ELSE 0
  ELSE IF Short(t[i + 1]) = c THEN i + 2 ELSE 0
LOCAL Quoted(t, i, s, q) == Lit(t, FoldLeft(LAMBDA p, c : CharAt(t, p, c, q), Lit(t, i, <<q>>), s), <<q>>)

(******************************* numbers ***********************************)
LOCAL NumChars == {45, 46} \cup (48..57)
LOCAL Pow10(k) == FoldLeft(LAMBDA m, j : MulAdd(m, 10, 0), <<1>>, Idx(k))
\* n / 10^k is the float, to within half of its last place
LOCAL Close(n, k, f) ==
  LET s == IF f.e >= 1 THEN 0 ELSE 1 - f.e
      ten == Pow10(k)
      d == Sub(<<0, Shl(n, s)>>, <<0, MulM(Shl(f.m, f.e + s), ten)>>)
  IN Cmp(d[2], Shl(ten, f.e - 1 + s)) <= 0
LOCAL FloatAt(t, i, f) ==
  IF i = 0 \/ i > Len(t) THEN 0
  ELSE IF f.nan THEN Lit(t, i, <<78, 97, 78>>)
  ELSE IF ~f.fin THEN Lit(t, i, (IF f.neg = 1 THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>)
  ELSE LET e == RunEnd(t, i, NumChars)
           s == SubSeq(t, i, e)
           neg == s # <<>> /\ s[1] = 45
           d == IF neg THEN Tail(s) ELSE s
           dot == First(d, 1, {46})
           whole == IF dot = 0 THEN d ELSE SubSeq(d, 1, dot - 1)
           frac == IF dot = 0 THEN <<>> ELSE SubSeq(d, dot + 1, Len(d))
           ok == /\ whole # <<>> /\ (dot > 0 => frac # <<>>)
                 /\ \A j \in 1..Len(whole) : IsDigit(whole[j])
                 /\ \A j \in 1..Len(frac) : IsDigit(frac[j])
                 /\ (neg = (f.neg = 1) \/ IsZero(f))
                 /\ Close(DecMag(whole \o frac), Len(frac), f)
       IN IF ok THEN e + 1 ELSE 0

(****************************** addresses **********************************)
LOCAL Split(s, c) == FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, s)
LOCAL Dots(x) == Printed(NumOf(x[1])) \o <<46>> \o Printed(NumOf(x[2])) \o <<46>> \o Printed(NumOf(x[3])) \o <<46>> \o Printed(NumOf(x[4]))
\* the 16-bit groups of colon separated text, the last of which may be an IPv4 address; <<-1>> if it is not that
LOCAL Groups(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET ps == Split(s, 58)
           one(j) == IF \E x \in 1..Len(ps[j]) : ps[j][x] = 46
                     THEN LET q == Split(ps[j], 46)
                              n == [x \in 1..Len(q) |-> IF q[x] # <<>> /\ Len(q[x]) <= 3 /\ IsDec(q[x]) THEN NatOf(DecMag(q[x])) ELSE 999]
                          IN IF j = Len(ps) /\ Len(q) = 4 /\ \A x \in 1..4 : n[x] < 256 THEN <<n[1] * 256 + n[2], n[3] * 256 + n[4]>> ELSE <<-1>>
                     ELSE IF Len(ps[j]) \in 1..4 THEN <<HexOf(ps[j])>> ELSE <<-1>>
       IN FoldLeft(LAMBDA a, j : a \o one(j), <<>>, Idx(Len(ps)))
LOCAL V6At(t, i, x) ==
  IF i = 0 THEN 0
  ELSE LET e == RunEnd(t, i, {46, 58} \cup (48..57) \cup (65..70) \cup (97..102))
           s == SubSeq(t, i, e)
           C == {j \in 1..(Len(s) - 1) : s[j] = 58 /\ s[j + 1] = 58}
           l == IF C = {} THEN Groups(s) ELSE Groups(SubSeq(s, 1, (CHOOSE j \in C : TRUE) - 1))
           r == IF C = {} THEN <<>> ELSE Groups(SubSeq(s, (CHOOSE j \in C : TRUE) + 2, Len(s)))
           z == 8 - Len(l) - Len(r)
       IN IF Cardinality(C) <= 1 /\ (IF C = {} THEN l = x ELSE z >= 1 /\ l \o [j \in 1..z |-> 0] \o r = x) THEN e + 1 ELSE 0

(******************************** tables ***********************************)
\* trailing blanks do not show
RECURSIVE RTrim(_, _)
RTrim(s, n) == IF n = 0 THEN <<>> ELSE IF s[n] # 32 THEN SubSeq(s, 1, n) ELSE RTrim(s, n - 1)
RECURSIVE DropBlank(_, _)
DropBlank(ls, n) == IF n = 0 THEN <<>> ELSE IF ls[n] # <<>> THEN SubSeq(ls, 1, n) ELSE DropBlank(ls, n - 1)
LOCAL Join(ls) == FoldLeft(LAMBDA a, j : IF j = 1 THEN ls[1] ELSE a \o <<10>> \o ls[j], <<>>, Idx(Len(ls)))
\* the table that starts at i: <<position after it, its rows as <<key, value>> texts>>, the first being its head; or <<0>>
LOCAL Table(t, i) ==
  LET w == First(t, i, {9582}) - i + 1
      line(k) == SubSeq(t, i + k * (w + 1), i + k * (w + 1) + w - 1)
      head(k) == LET j == i + k * (w + 1) IN IF j <= Len(t) THEN t[j] ELSE 0
      most == (Len(t) - i) \div (w + 1)
      E == {k \in 1..most : head(k) = 9584}
      n == CHOOSE k \in E : \A j \in E : k <= j
      col == First(t, i, {9516}) - i + 1
      seps == SortNats(SetToSeq({k \in 0..n : head(k) \in {9581, 9500, 9566, 9584}}))
      cell(g, a, b) == Join(DropBlank([x \in 1..(seps[g + 1] - seps[g] - 1) |-> LET s == line(seps[g] + x) IN RTrim(SubSeq(s, a, b), b - a + 1)], seps[g + 1] - seps[g] - 1))
  IN IF i = 0 \/ i > Len(t) \/ t[i] # 9581 \/ w < 2 \/ E = {} \/ col \notin 2..(w - 1) THEN <<0>>
     ELSE IF \E k \in 1..n : i + k * (w + 1) + w - 1 > Len(t) \/ t[i + k * (w + 1) - 1] # 10 THEN <<0>>
     ELSE <<i + n * (w + 1) + w,
           FoldLeft(LAMBDA a, g : IF seps[g + 1] = seps[g] + 1 THEN a ELSE Append(a, <<cell(g, 3, col - 2), cell(g, col + 2, w - 2)>>), <<>>, Idx(Len(seps) - 1))>>

(******************************** values ***********************************)
LOCAL Hex2(x) == LET d(n) == IF n < 10 THEN 48 + n ELSE 55 + n IN <<48, 120>> \o (IF x < 16 THEN <<d(x)>> ELSE <<d(x \div 16), d(x % 16)>>)
\* a blank at the end of a line does not show in a table
LOCAL Comma(t, p) == LET q == Lit(t, p, <<44, 10>>) IN IF q > 0 THEN q - 1 ELSE Lit(t, p, <<44, 32>>)
LOCAL Listed(t, i, n, at(_, _)) ==
  Lit(t, FoldLeft(LAMBDA p, j : at(IF j = 1 THEN p ELSE Comma(t, p), j), Lit(t, i, <<91>>), Idx(n)), <<93>>)
RECURSIVE Match(_, _, _)
Match(v, t, i) ==
  LET k == v[1]
      x == v[2]
  IN CASE i = 0 -> 0
       [] k = 0 -> Quoted(t, i, <<x>>, 39)
       [] k = 1 -> Quoted(t, i, x, 34)
       [] k = 2 -> Listed(t, i, Len(x), LAMBDA p, j : Lit(t, p, Hex2(x[j])))
       [] k = 3 -> Lit(t, i, IF x = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
       [] k = 4 -> Lit(t, i, Printed(x))
       [] k = 5 -> IF x[1] = 0 THEN Lit(t, FloatAt(t, Lit(t, FloatAt(t, i, F64(x[2])), <<32, 101, 94, 40>>), F64(x[3])), <<105, 41>>)
                   ELSE Lit(t, i, Printed(x[2]) \o (IF x[3][1] = 1 THEN <<>> ELSE <<43>>) \o Printed(x[3]) \o <<105>>)
       [] k = 6 -> Lit(t, i, TimeText(x))
       [] k \in {7, 12} -> Lit(t, i, x)
       [] k = 8 -> LET r == Table(t, Lit(t, i, <<10>>))
                       rows == Tail(r[2])
                       is(e, row) == /\ row[1] = e[1]
                                     /\ LET s == row[2] IN Match(e[2], s, 1) = Len(s) + 1
                   IN IF r[1] # 0 /\ Len(rows) = Len(x) /\ \A e \in 1..Len(x) : \E j \in 1..Len(rows) : is(x[e], rows[j]) THEN r[1] ELSE 0
       [] k = 9 -> Lit(t, i, <<110, 117, 108, 108>>)
       [] k = 10 -> FloatAt(t, i, F64(x))
       [] k = 11 -> Listed(t, i, Len(x), LAMBDA p, j : Match(x[j], t, p))
       [] k = 13 -> Lit(t, i, Dots(x))
       [] k = 14 -> V6At(t, i, x)
       [] k = 15 -> FloatAt(t, i, F32(x))
ShownAs(v, t) == Match(v, t, 1) = Len(t) + 1
=============================================================================

-------------------------------- MODULE Nums --------------------------------
(***************************************************************************)
(* Numbers of any size.  TLC's own integers have 32 bits, so a magnitude   *)
(* is a sequence of bytes, least significant first, without trailing zero  *)
(* bytes, and a number is <<neg, magnitude>> with neg in {0, 1}; zero is   *)
(* <<0, <<>>>>.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE TrimTo(_, _)
TrimTo(b, n) == IF n = 0 THEN <<>> ELSE IF b[n] # 0 THEN SubSeq(b, 1, n) ELSE TrimTo(b, n - 1)
Trim(b) == TrimTo(b, Len(b))

\* small naturals (below 2^31)
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o MagOf(n \div 256)
\* defined for magnitudes of at most 3 bytes; Huge stands for anything larger
Huge == 2000000000
NatOf(m) == CASE Len(m) = 0 -> 0
              [] Len(m) = 1 -> m[1]
              [] Len(m) = 2 -> m[1] + 256 * m[2]
              [] Len(m) = 3 -> m[1] + 256 * m[2] + 65536 * m[3]
              [] Len(m) = 4 /\ (m[4] < 119 \/ (m[4] = 119 /\ (m[3] < 53 \/ (m[3] = 53 /\ m[2] < 148)))) -> m[1] + 256 * m[2] + 65536 * m[3] + 16777216 * m[4]
              [] OTHER -> Huge

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

Idx(n) == [i \in 1..n |-> i]

AddM(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      r == FoldLeft(LAMBDA acc, i : LET s == At(a, i) + At(b, i) + acc[1]
                                    IN <<s \div 256, Append(acc[2], s % 256)>>, <<0, <<>>>>, Idx(n))
  IN Trim(r[2])
\* a >= b
SubM(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET s == At(a, i) - At(b, i) - acc[1]
                                    IN IF s < 0 THEN <<1, Append(acc[2], s + 256)>> ELSE <<0, Append(acc[2], s)>>,
                    <<0, <<>>>>, Idx(Len(a)))
  IN Trim(r[2])
MulM(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET n == Len(a) + Len(b)
           col(k) == FoldLeft(LAMBDA s, i : IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN s + a[i] * b[k - i + 1] ELSE s, 0, Idx(Min2(k, Len(a))))
           r == FoldLeft(LAMBDA acc, k : LET s == col(k) + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>, <<0, <<>>>>, Idx(n))
       IN Trim(r[2])
MulAdd(m, k, c) == \* m * k + c for small k and c
  LET r == FoldLeft(LAMBDA acc, i : LET s == m[i] * k + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>, <<c, <<>>>>, Idx(Len(m)))
  IN Trim(r[2] \o MagOf(r[1]))

Pow2(n) == [i \in 1..(n \div 8 + 1) |-> IF i = n \div 8 + 1 THEN 2 ^ (n % 8) ELSE 0]

\* signed numbers
Zero == <<0, <<>>>>
Num(neg, m) == IF m = <<>> THEN Zero ELSE <<neg, m>>
NumOf(i) == IF i < 0 THEN <<1, MagOf(-i)>> ELSE <<0, MagOf(i)>>
Neg(x) == IF x[2] = <<>> THEN Zero ELSE <<1 - x[1], x[2]>>
Add(x, y) ==
  IF x[1] = y[1] THEN Num(x[1], AddM(x[2], y[2]))
  ELSE CASE Cmp(x[2], y[2]) = 0 -> Zero
         [] Cmp(x[2], y[2]) = 1 -> Num(x[1], SubM(x[2], y[2]))
         [] OTHER -> Num(y[1], SubM(y[2], x[2]))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Num(IF x[1] = y[1] THEN 0 ELSE 1, MulM(x[2], y[2]))
\* q is x / y truncated towards zero
IsQuotient(q, x, y) ==
  LET p == MulM(q[2], y[2])
  IN /\ Cmp(p, x[2]) <= 0
     /\ Cmp(SubM(x[2], p), y[2]) = -1
     /\ (q[2] # <<>> => q[1] = (IF x[1] = y[1] THEN 0 ELSE 1))
     /\ (q[2] = <<>> => q = Zero)
Leq(x, y) == LET d == Sub(y, x) IN d[1] = 0
InRange(x, lo, hi) == Leq(lo, x) /\ Leq(x, hi)

\* the native types: bits and signedness
NativeBits == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, usize |-> 64, u128 |-> 128,
               i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, isize |-> 64, i128 |-> 128]
Unsigned == {"u8", "u16", "u32", "u64", "usize", "u128"}
Signed == {"i8", "i16", "i32", "i64", "isize", "i128"}
Natives == Unsigned \cup Signed
Fits(x, t) ==
  LET b == NativeBits[t]
  IN IF t \in Unsigned THEN x[1] = 0 /\ Len(x[2]) <= b \div 8
     ELSE IF x[1] = 0 THEN Cmp(x[2], Pow2(b - 1)) = -1
     ELSE Cmp(x[2], Pow2(b - 1)) <= 0
\* what a stored integer can be at all
Storable(x) == Fits(x, "u128") \/ Fits(x, "i128")

\* decimal text (code points)
Digit(c) == c - 48
IsDigit(c) == c >= 48 /\ c <= 57
DecMag(t) == FoldLeft(LAMBDA m, c : MulAdd(m, 10, Digit(c)), <<>>, t)
IsDec(t) == /\ t # <<>>
            /\ LET d == IF t[1] = 45 THEN Tail(t) ELSE t
               IN d # <<>> /\ \A i \in 1..Len(d) : IsDigit(d[i])
DecNum(t) == IF t[1] = 45 THEN Num(1, DecMag(Tail(t))) ELSE Num(0, DecMag(t))
\* the one way to print a number
IsPrinted(t, x) ==
  /\ IsDec(t)
  /\ LET d == IF t[1] = 45 THEN Tail(t) ELSE t IN (Len(d) > 1 => d[1] # 48) /\ (t[1] = 45 => d # <<48>>)
  /\ DecNum(t) = x
DivSmall(m, k) == \* <<quotient, remainder>>
  LET r == FoldLeft(LAMBDA acc, j : LET s == acc[1] * 256 + m[Len(m) - j + 1]
                                    IN <<s % k, <<s \div k>> \o acc[2]>>, <<0, <<>>>>, Idx(Len(m)))
  IN <<Trim(r[2]), r[1]>>
RECURSIVE DecDigits(_)
DecDigits(m) == IF m = <<>> THEN <<>> ELSE LET d == DivSmall(m, 10) IN Append(DecDigits(d[1]), 48 + d[2])
Printed(x) == IF x[2] = <<>> THEN <<48>> ELSE (IF x[1] = 1 THEN <<45>> ELSE <<>>) \o DecDigits(x[2])
=============================================================================

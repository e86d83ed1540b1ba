------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Binary floating point numbers given by their bytes, exactly.            *)
(***************************************************************************)
EXTENDS Nums

\* [neg, exp, man]: exponent field and mantissa field (as a magnitude)
Parts64(b) == [neg |-> b[8] \div 128, exp |-> (b[8] % 128) * 16 + b[7] \div 16, man |-> Trim(SubSeq(b, 1, 6) \o <<b[7] % 16>>)]
Parts32(b) == [neg |-> b[4] \div 128, exp |-> (b[4] % 128) * 2 + b[3] \div 128, man |-> Trim(<<b[1], b[2], b[3] % 128>>)]
\* [fin, nan, neg, m, e]: the value is m * 2^e
Float(p, expbits, manbits) ==
  LET top == 2 ^ expbits - 1
      bias == 2 ^ (expbits - 1) - 1
  IN [fin |-> p.exp # top, nan |-> p.exp = top /\ p.man # <<>>, neg |-> p.neg,
      m |-> IF p.exp = 0 THEN p.man ELSE AddM(p.man, Pow2(manbits)),
      e |-> (IF p.exp = 0 THEN 1 ELSE p.exp) - bias - manbits]
F64(b) == Float(Parts64(b), 11, 52)
F32(b) == Float(Parts32(b), 8, 23)
Finite64(b) == Parts64(b).exp # 2047
Finite32(b) == Parts32(b).exp # 255
IsZero(f) == f.m = <<>>

Shl(m, n) == MulM(m, Pow2(n))
DropBytes(m, k) == IF k >= Len(m) THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
Shr(m, n) == DivSmall(DropBytes(m, n \div 8), 2 ^ (n % 8))[1]
BitLen(m) == IF m = <<>> THEN 0 ELSE 8 * (Len(m) - 1) + (LET t == m[Len(m)] IN CHOOSE k \in 1..8 : 2 ^ (k - 1) <= t /\ t < 2 ^ k)
\* whole part, and whether anything is left
Whole(f) == IF f.e >= 0 THEN Shl(f.m, f.e) ELSE Shr(f.m, -f.e)
IsWhole(f) == f.e >= 0 \/ Shl(Shr(f.m, -f.e), -f.e) = f.m
\* |f| < 2^k
Below(f, k) == BitLen(f.m) + f.e <= k
\* what is left is less than 2^-k (f.e < 0)
FracBelow(f, k) == LET r == SubM(f.m, Shl(Shr(f.m, -f.e), -f.e)) IN BitLen(r) + f.e <= -k

\* what converting it to an integer may give: <<x>> means just x; <<>> means refusal; both are in the set where the
\* fraction is about machine epsilon (within a factor of two)
ToInt(f, eps) ==
  IF ~f.fin THEN {<<>>}
  ELSE IF ~Below(f, 200) THEN {<<>>}
  ELSE LET x == Num(f.neg, Whole(f))
           r == IF Storable(x) THEN <<x>> ELSE <<>>
       IN IF IsWhole(f) \/ FracBelow(f, eps + 1) THEN {r} ELSE IF FracBelow(f, eps - 1) THEN {r, <<>>} ELSE {<<>>}

\* equality of floats as numbers
EqBits(x, y, f(_)) == LET a == f(x) b == f(y) IN ~a.nan /\ ~b.nan /\ (x = y \/ (a.fin /\ b.fin /\ IsZero(a) /\ IsZero(b)))
Eq64(x, y) == EqBits(x, y, F64)
Eq32(x, y) == EqBits(x, y, F32)

\* a finite single precision float as the double of the same value
Pad(m, n) == m \o [i \in 1..(n - Len(m)) |-> 0]
Widen(b) ==
  LET p == Parts32(b)
      build(neg, exp, man) == LET m == Pad(man, 7) IN SubSeq(m, 1, 6) \o <<m[7] + 16 * (exp % 16), 128 * neg + exp \div 16>>
  IN IF p.exp = 0 THEN
       IF p.man = <<>> THEN build(p.neg, 0, <<>>)
       ELSE LET n == BitLen(p.man) \* value man * 2^-149
            IN build(p.neg, 1023 + n - 1 - 149, SubM(Shl(p.man, 53 - n), Pow2(52)))
     ELSE build(p.neg, p.exp - 127 + 1023, Shl(p.man, 29))

(***************************************************************************)
(* Sines and cosines in fixed point with 96 fractional bits: numbers are   *)
(* signed, in units of 2^-96.                                              *)
(***************************************************************************)
FP == 96
One == <<0, Pow2(FP)>>
FMul(x, y) == LET p == Mul(x, y) IN Num(p[1], DropBytes(p[2], FP \div 8))
FDivS(x, k) == Num(x[1], DivSmall(x[2], k)[1])
ToFixed(f) == LET s == f.e + FP IN Num(f.neg, IF s >= 0 THEN Shl(f.m, s) ELSE Shr(f.m, -s))
\* Taylor series at x, |x| <= 4: terms x^k/k!
Cos(x) == LET x2 == FMul(x, x)
              r == FoldLeft(LAMBDA a, k : LET t == Neg(FDivS(FMul(a[2], x2), (2 * k - 1) * (2 * k))) IN <<Add(a[1], t), t>>, <<One, One>>, Idx(24))
          IN r[1]
Sin(x) == LET x2 == FMul(x, x)
              r == FoldLeft(LAMBDA a, k : LET t == Neg(FDivS(FMul(a[2], x2), (2 * k) * (2 * k + 1))) IN <<Add(a[1], t), t>>, <<x, x>>, Idx(24))
          IN r[1]
Abs(x) == <<0, x[2]>>
=============================================================================

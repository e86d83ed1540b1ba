------------------------------ MODULE LibCases ------------------------------
(***************************************************************************)
(* Recorded executions of the library, judged one by one: case c is what   *)
(* was asked (chk says which judgement applies) and c.o what the code did. *)
(***************************************************************************)
EXTENDS Show, Json, IOUtils

BL == INSTANCE BitList WITH MaxLen <- 0, bits <- <<>>, last <- <<>>
CM == INSTANCE CursorM WITH N <- 0, pos <- 0, last <- <<>>

Done(o) == o.r = "ok"
Refused(o) == o.r = "err"
Calm(o) == Done(o) \/ Refused(o)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

(****************************** equality ***********************************)
\* of documents: whole numbers and floats are never equal, floats are as doubles
RECURSIVE SameDoc(_, _)
SameDoc(d, e) ==
  /\ d[1] = e[1]
  /\ CASE d[1] = 3 -> Eq64(d[2], e[2])
       [] d[1] = 5 -> Len(d[2]) = Len(e[2]) /\ \A i \in 1..Len(d[2]) : SameDoc(d[2][i], e[2][i])
       [] d[1] = 6 -> Len(d[2]) = Len(e[2]) /\ \A i \in 1..Len(d[2]) : d[2][i][1] = e[2][i][1] /\ SameDoc(d[2][i][2], e[2][i][2])
       [] OTHER -> d[2] = e[2]
RECURSIVE Same(_, _, _)
Same(v, w, jd) ==
  /\ v[1] = w[1]
  /\ CASE v[1] = 10 -> Eq64(v[2], w[2])
       [] v[1] = 15 -> Eq32(v[2], w[2])
       [] v[1] = 5 -> v[2][1] = w[2][1] /\ (IF v[2][1] = 0 THEN Eq64(v[2][2], w[2][2]) /\ Eq64(v[2][3], w[2][3]) ELSE v[2] = w[2])
       [] v[1] = 7 -> SameDoc(Lookup(jd, v[2]), Lookup(jd, w[2]))
       [] v[1] = 8 -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : v[2][i][1] = w[2][i][1] /\ Same(v[2][i][2], w[2][i][2], jd)
       [] v[1] = 11 -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Same(v[2][i], w[2][i], jd)
       [] OTHER -> v[2] = w[2]

(***************************** the format **********************************)
DictOf(d) == IF d = <<>> THEN <<>> ELSE <<DecTree(d[1], 1, 0, TRUE).v>>
\* written without maps of several entries and without blobs, there is only one way to write it
RECURSIVE Unique(_)
Unique(v) == CASE v[1] = 2 -> FALSE
               [] v[1] = 8 -> Len(v[2]) <= 1 /\ \A i \in 1..Len(v[2]) : Unique(v[2][i][2])
               [] v[1] = 11 -> \A i \in 1..Len(v[2]) : Unique(v[2][i])
               [] v[1] \in {4, 5} -> FALSE
               [] OTHER -> TRUE
\* blobs may be compressed in several ways; the order of entries is free, and so is how each text is written where there is a tree
RECURSIVE NoBlob(_)
NoBlob(v) == CASE v[1] = 2 -> FALSE
               [] v[1] = 8 -> \A i \in 1..Len(v[2]) : NoBlob(v[2][i][2])
               [] v[1] = 11 -> \A i \in 1..Len(v[2]) : NoBlob(v[2][i])
               [] OTHER -> TRUE
Style(dict, str, sgn) == [dict |-> dict, str |-> str, len |-> "short", pad |-> -1, comp |-> 0, sgn |-> sgn, rev |-> FALSE]
WrittenAs(enc, v, dict) ==
  CASE v[1] = 4 -> enc \in {EncVal(v, Style(dict, "code", s)) : s \in {0, 1}}
    [] dict # <<>> /\ dict[1][1] = 1 -> TRUE \* the one bit of a lone symbol may be either
    [] Unique(v) -> enc \in {EncVal(v, Style(dict, str, s)) : str \in {"code", "utf8"}, s \in {0, 1}}
    [] dict = <<>> /\ NoBlob(v) -> Len(enc) = Len(EncVal(v, Style(<<>>, "utf8", 0)))
    [] OTHER -> TRUE

RoundTrip(o, want) == \* of a value, under several dictionaries
  /\ Done(o) /\ o.v = want
  /\ All(o.encs, LAMBDA e : Done(e.dec) /\ e.dec.v = want /\ e.dec.p = Len(e.enc))
\* maps and arrays of one entry, nested; the innermost holds nothing
DeepOk(c) == /\ Done(c.o) /\ c.o.spine = c.spine /\ c.o.eq /\ c.o.left = 0
             /\ c.o.enc = Concat([i \in 1..Len(c.spine) |-> IF c.spine[i] = 8 THEN <<130, 16, 0>> ELSE <<178>>]) \o <<144>>
ReadByOthers(o, want) ==
  /\ Done(o)
  /\ All(o.encs, LAMBDA e : /\ (e.d # <<>> => LET t == DecTree(e.d[1], 1, 0, TRUE) IN t.ok /\ t.p = Len(e.d[1]) + 1 /\ EncTree(t.v, TRUE) = e.d[1])
                            /\ LET r == DecVal(e.enc, 1, DictOf(e.d)) IN r.ok /\ r.v = want /\ r.p = Len(e.enc) + 1
                            /\ WrittenAs(e.enc, want, DictOf(e.d)))

(*************************** arbitrary bytes *******************************)
\* a run-length repeat is allowed to expand to the length it states
HasRepeat(b) == \E i \in 1..(Len(b) - 1) : b[i] % 128 \in {3, 35} /\ b[i + 1] = 1
Repeats_(c) == CASE c.op = "bdec" -> c.c = 3 /\ c.b # <<>> /\ c.b[1] = 1
                 [] c.op = "vdec" -> HasRepeat(c.b)
                 [] c.op = "sdec" -> Len(c.b) > 9 /\ (HasRepeat(SubSeq(c.b, 9, Len(c.b))) \/ LET r == DecBlob(c.b[9] % 128, c.b, 10) IN r.ok /\ HasRepeat(r.v))
                 [] OTHER -> FALSE
Allowed(n) == 2000000 + 70000 * n
Calmly(c) ==
  /\ Calm(c.o)
  /\ (c.prefix => Refused(c.o))
  /\ ("peak" \in DOMAIN c.o => c.o.peak <= Allowed(Len(c.b)) \/ Repeats_(c))
  /\ (Done(c.o) /\ "p" \in DOMAIN c.o => c.o.p >= 0 /\ c.o.p <= Len(c.b))

(**************************** dictionaries *********************************)
Probe(tree, p) ==
  LET cov == Covers(tree, p.t)
      good(x) == IF cov \/ p.t = <<>> THEN x # <<>> /\ x[1].back = <<p.t>> ELSE x = <<>>
      bitsok(x) == x # <<>> => LET r == DecCode(tree, x[1].bits) IN r.ok /\ r.v = p.t /\ (tree[1] = 0 => x[1].bits = EncCode(tree, p.t)) /\ (tree[1] = 1 => Len(x[1].bits) = Len(p.t))
  IN good(p.a) /\ good(p.b) /\ good(p.x) /\ bitsok(p.a) /\ p.a = p.b /\ p.a = p.x
DictOk(c) ==
  IF c.text = <<>> THEN Refused(c.o)
  ELSE /\ Done(c.o)
       /\ LET t == DecTree(c.o.ser, 1, 0, TRUE)
          IN /\ t.ok /\ t.p = Len(c.o.ser) + 1 /\ c.o.p = Len(c.o.ser) /\ c.o.ser2 = c.o.ser
             /\ LET ls == Leaves(t.v) IN Cardinality(Symbols(ls)) = Len(ls)
             /\ Covers(t.v, c.text)
             /\ All(c.o.probes, LAMBDA p : Probe(t.v, p))
             \* the first probe is the text itself
             /\ c.o.probes[1].t = c.text /\ Len(c.o.probes[1].a[1].bits) = OptimalBits(c.text)
\* the dictionary for English: its letters, digits and marks have codes
English == (48..57) \cup (65..90) \cup (97..122) \cup {10, 32, 34, 39, 40, 41, 44, 45, 46, 58, 59, 63}
EnglishOk(c) ==
  /\ Done(c.o)
  /\ LET t == DecTree(c.o.ser, 1, 0, TRUE)
     IN /\ t.ok /\ t.p = Len(c.o.ser) + 1 /\ c.o.p = Len(c.o.ser) /\ c.o.ser2 = c.o.ser
        /\ LET ls == Leaves(t.v) IN Cardinality(Symbols(ls)) = Len(ls) /\ English \subseteq Symbols(ls)
        /\ All(c.o.probes, LAMBDA p : Probe(t.v, p))
\* a long text, known by how often each symbol occurs
LongDictOk(c) ==
  /\ Done(c.o) /\ c.o.back
  /\ LET t == DecTree(c.o.ser, 1, 0, TRUE)
         len(s) == Len((CHOOSE x \in Codes(t.v) : x[1] = s)[2])
     IN /\ t.ok /\ t.p = Len(c.o.ser) + 1
        /\ {c.counts[i][1] : i \in 1..Len(c.counts)} = Symbols(Leaves(t.v))
        /\ c.o.total = FoldLeft(LAMBDA a, x : a + x[2] * len(x[1]), 0, c.counts)
        /\ c.o.total = MergeCost(SortNats([i \in 1..Len(c.counts) |-> c.counts[i][2]]))
Dict8Ok(c) ==
  IF c.text = <<>> THEN Refused(c.o)
  ELSE /\ Done(c.o)
       /\ LET t == DecTree(c.o.ser, 1, 0, FALSE)
          IN /\ t.ok /\ t.p = Len(c.o.ser) + 1 /\ c.o.p = Len(c.o.ser) /\ c.o.ser2 = c.o.ser
             /\ LET ls == Leaves(t.v) IN Cardinality(Symbols(ls)) = Len(ls)
             /\ Covers(t.v, c.text) /\ c.o.back = c.text /\ c.o.bits2 = c.o.bits
             /\ LET r == DecCode(t.v, c.o.bits) IN r.ok /\ r.v = c.text
             /\ Len(c.o.bits) = OptimalBits(c.text)
             /\ (c.o.missing = <<>>) = ~Covers(t.v, c.miss)

(******************************** blobs ************************************)
MinLen(s) == CHOOSE n \in {Len(s[i].enc) : i \in 1..Len(s)} : \A i \in 1..Len(s) : n <= Len(s[i].enc)
BlobOk(c) ==
  LET o == c.o
  IN /\ Done(o)
     /\ Len(o.all) = 4
     /\ All(o.all, LAMBDA e : Done(e.dec) /\ e.dec.v = c.b /\ e.dec.p = Len(e.enc))
     /\ o.c \in 0..3 /\ Done(o.dec) /\ o.dec.v = c.b /\ o.dec.p = Len(o.enc)
     /\ Len(o.enc) = MinLen(o.all)
BlobRead(c) ==
  LET o == c.o
  IN /\ Done(o)
     /\ All(o.all, LAMBDA e : LET r == DecBlob(e.c, e.enc, 1) IN r.ok /\ r.v = c.b /\ r.p = Len(e.enc) + 1)
     /\ LET r == DecBlob(o.c, o.enc, 1) IN r.ok /\ r.v = c.b /\ r.p = Len(o.enc) + 1
BigBlobOk(c) ==
  LET o == c.o
  IN /\ Done(o) /\ All(o.all, LAMBDA e : Done(e.dec) /\ e.dec.same /\ e.dec.left = 0)
     /\ \A i \in 1..4 : o.len <= o.all[i].len
     /\ \E i \in 1..4 : o.all[i].c = o.c /\ o.all[i].len = o.len

(******************************* integers **********************************)
Extracted(nat, x) == \A t \in Natives : nat[t] = (IF Fits(x, t) THEN <<x>> ELSE <<>>)
IntNative(c) == Done(c.o) /\ Extracted(c.o.nat, c.x) /\ Extracted(c.o.nat2, c.x) /\ Extracted(c.o.vnat, c.x)
IntText(c) ==
  /\ Done(c.o) /\ c.o.disp = Printed(c.x) /\ c.o.disp2 = Printed(c.x)
  /\ c.o.neg = (c.x[1] = 1) /\ c.o.neg2 = (c.x[1] = 1)
  /\ (c.x # Zero => c.o.pos = (c.x[1] = 0) /\ c.o.pos2 = (c.x[1] = 0))
  /\ Len(c.o.enc) <= 17 /\ (c.x[1] = 0 /\ (c.x[2] = <<>> \/ (Len(c.x[2]) = 1 /\ c.x[2][1] <= 239)) => Len(c.o.enc) = 1)
  /\ c.o.p = Len(c.o.enc)
  \* through serde: from every native type that holds it; and in JSON, whose numbers have 64 bits
  /\ \A t \in Natives : c.o.sernat[t] = (IF Fits(c.x, t) THEN <<c.x>> ELSE <<>>)
  /\ c.o.serde = <<Printed(c.x)>>
  /\ IF Fits(c.x, "i64") \/ Fits(c.x, "u64") THEN c.o.serdeback = <<c.x>> ELSE c.o.serdeback \in {<<>>, <<c.x>>}
  /\ c.o.json = (IF Fits(c.x, "i64") \/ Fits(c.x, "u64") THEN <<Printed(c.x)>> ELSE <<>>)
IntLayout(c) == \* c.o.ss: sign state
  /\ Done(c.o) /\ (c.o.ss = 2) = (c.x[1] = 1) /\ c.o.enc = EncInt(c.x, -1)
ParseOk(c) ==
  IF IsDec(c.t) THEN (IF Storable(DecNum(c.t)) THEN Done(c.o) /\ c.o.v = DecNum(c.t) /\ c.o.disp = Printed(DecNum(c.t)) ELSE Refused(c.o))
  ELSE Refused(c.o)
\* c.ua, c.ub: whether the operands are unsigned
ArithOk(c) ==
  LET wide == IF c.ua /\ c.ub THEN "u128" ELSE "i128"
      is(r, x) == Fits(x, wide) => Done(r) /\ r.v = x
  IN /\ Done(c.o)
     /\ (Fits(c.a, wide) /\ Fits(c.b, wide)) =>
          /\ is(c.o.add, Add(c.a, c.b)) /\ is(c.o.sub, Sub(c.a, c.b)) /\ is(c.o.mul, Mul(c.a, c.b))
          /\ (c.b # Zero => (Done(c.o.div) /\ IsQuotient(c.o.div.v, c.a, c.b))
                            \/ (wide = "i128" /\ c.b = <<1, <<1>>>> /\ ~Fits(Neg(c.a), "i128")))
IntEq(c) == LET e == c.a = c.b IN Done(c.o) /\ c.o.eq = e /\ c.o.sym = e /\ c.o.veq = e /\ (e => c.o.heq /\ c.o.vheq)
ValEq(c) == LET e == Same(c.a, c.b, c.jd)
            IN Done(c.o) /\ c.o.a = c.a /\ c.o.b = c.b /\ c.o.eq = e /\ c.o.sym = e /\ (e => c.o.heq) /\ c.o.refl = Same(c.a, c.a, c.jd)
MapEq(c) == LET e == Same(c.o.a, c.o.b, c.jd) IN Done(c.o) /\ c.o.eq = e /\ c.o.weq = e /\ (e => c.o.heq /\ c.o.wheq) /\ (e = c.same)
IntDec(c) == \* bytes of a number as any writer may lay them out
  LET r == DecInt(c.b, 1, c.ss)
  IN r.ok => Done(c.o) /\ c.o.v = r.v /\ c.o.p = r.p - 1
IntDecNative(c) == LET r == DecInt(c.b, 1, c.ss) IN r.ok => Done(c.o) /\ Extracted(c.o.nat, r.v)
IntDecText(c) == LET r == DecInt(c.b, 1, c.ss) IN r.ok => Done(c.o) /\ c.o.disp = Printed(r.v) /\ c.o.neg = (r.v[1] = 1)

(******************************** floats ***********************************)
FloatInt(c, f, eps) == LET S == ToInt(f, eps) IN Calm(c.o) /\ (IF Done(c.o) THEN <<c.o.v>> ELSE <<>>) \in S
\* f is a float nearest to x, or infinite where that is beyond them all (max: the largest one and half a step)
Nearest(f, x, max) ==
  IF ~f.fin THEN ~f.nan /\ f.neg = x[1] /\ Cmp(x[2], max) >= 0
     ELSE IF x = Zero THEN IsZero(f)
     ELSE /\ f.neg = x[1] /\ f.e > -200 /\ f.e < 200
          /\ LET v == Num(0, Shl(f.m, f.e + 201)) \* twice the value in units of 2^-200
             IN Cmp(Abs(Sub(v, Num(0, Shl(x[2], 201))))[2], Pow2(f.e + 200)) <= 0
ToFloat(c) == Done(c.o) /\ Nearest(F64(c.o.f64), c.x, Pow2(1024)) /\ Nearest(F32(c.o.f32), c.x, SubM(Pow2(128), Pow2(103)))
\* 2^-t of y
Tiny(y, t) == Shr(y, t)
Near(x, y, tol) == Cmp(Abs(Sub(x, y))[2], tol) <= 0
\* pi rounded up, in units of 2^-96: pi as a double is below pi
PiHi == <<47, 138, 25, 19, 211, 8, 163, 133, 136, 106, 63, 36, 3>>
\* the parts are whole numbers below 2^128; m and a are the doubles given
PolarOk(c) ==
  LET o == c.o
      m == F64(o.m)
      a == F64(o.a)
      sq == AddM(MulM(c.re[2], c.re[2]), MulM(c.im[2], c.im[2]))
      \* m^2 in units of 2^-200
      mm == LET s == 2 * m.e + 200 IN IF s >= 0 THEN Shl(MulM(m.m, m.m), s) ELSE Shr(MulM(m.m, m.m), -s)
      ss == Shl(sq, 200)
      ang == ToFixed(a)
      cross == Abs(Sub(Mul(c.re, Sin(ang)), Mul(c.im, Cos(ang))))[2] \* 2^-96 units, zero on the right line
      dot == Add(Mul(c.re, Cos(ang)), Mul(c.im, Sin(ang))) \* the modulus, in the right direction
  IN /\ Done(o) /\ m.fin /\ a.fin /\ m.neg = 0 /\ o.idem /\ o.same
     /\ Cmp(ang[2], PiHi) <= 0
     /\ IF sq = <<>> THEN IsZero(m)
        ELSE /\ Near(<<0, mm>>, <<0, ss>>, Tiny(ss, 48))
             /\ dot[1] = 0 /\ dot # Zero /\ Cmp(cross, Tiny(dot[2], 48)) <= 0
     \* back again: only the same parts (doubles have 53 bits, so larger parts only nearly)
     /\ (o.back # <<>> => 
           /\ Near(o.back[1], c.re, IF BitLen(sq) > 92 THEN Tiny(AddM(c.re[2], c.im[2]), 45) ELSE <<>>)
           /\ Near(o.back[2], c.im, IF BitLen(sq) > 92 THEN Tiny(AddM(c.re[2], c.im[2]), 45) ELSE <<>>))
CartOk(c) ==
  LET m == F64(c.m)
      a == F64(c.a)
      ang == ToFixed(a)
      part(t) == LET p == Mul(Num(m.neg, m.m), t) s == m.e IN Num(p[1], IF s >= 0 THEN Shl(p[2], s) ELSE Shr(p[2], -s)) \* units of 2^-96
      tol == AddM(Tiny(IF m.e >= -200 THEN (IF m.e + 96 >= 0 THEN Shl(m.m, m.e + 96) ELSE Shr(m.m, -(m.e + 96))) ELSE <<>>, 50), Pow2(96 - 48))
      is(x, t) == Near(<<x[1], Shl(x[2], 96)>>, part(t), tol)
  IN /\ Calm(c.o)
     /\ (Done(c.o) => m.fin /\ a.fin /\ is(c.o.re, Cos(ang)) /\ is(c.o.im, Sin(ang)))
     /\ (Refused(c.o) => c.o.kept)
     /\ (c.must => Done(c.o))

(********************************* JSON ************************************)
Typed(c) ==
  LET o == c.o
      w == Norm(c.want, c.jd)
  IN /\ Done(o) /\ o.v = c.want
     /\ (Plain(c.want, c.jd) # <<>> => o.typed # <<>> /\ o.typed[1].direct = <<w>> /\ o.typed[1].via = <<w>>)
PlainOk(c) ==
  LET p == Plain(c.want, c.jd)
  IN /\ Done(c.o)
     /\ (IF p = <<>> THEN c.o.plain = <<>> /\ c.o.typed = <<>>
         ELSE /\ c.o.plain # <<>> /\ c.o.plain[1].j = p[1]
              /\ c.o.typed # <<>>
              /\ (~Annotated(p[1]) => c.o.plain[1].direct = <<Import(p[1])>> /\ c.o.plain[1].via = <<Import(p[1])>>))
StoreTyped(c) ==
  LET m == <<8, c.want>>
  IN /\ Done(c.o) /\ c.o.v = c.want
     /\ (Plain(m, c.jd) # <<>> => c.o.typed # <<>> /\ c.o.typed[1].back = <<Norm(m, c.jd)[2]>>)
StorePlain(c) ==
  LET m == <<8, c.want>>
      p == Plain(m, c.jd)
  IN /\ Done(c.o)
     /\ (IF p = <<>> THEN c.o.plain = <<>> ELSE c.o.plain # <<>> /\ c.o.plain[1].j = p[1] /\ c.o.plain[1].back = <<Import(p[1])[2]>>)
\* a document in and out; c.doc is the document the text spells
JsonIn(c) ==
  IF c.doc[1] # 6 THEN Calm(c.o) \* what is not an object may be wrapped or refused
  ELSE /\ Done(c.o)
       /\ c.o.v = Import(c.doc)[2]
       /\ c.o.ser = <<Import(c.doc)[2]>>
       /\ c.o.plain = <<c.doc>>
       /\ c.o.doc = <<c.doc>>
SerdeOk(c) == Done(c.o) /\ c.o.doc = c.doc /\ c.o.back = c.doc
StructOk(c) == Done(c.o) /\ c.o.same

(******************************** kinds ************************************)
KindsOk(c) ==
  LET v == c.want
  IN /\ Done(c.o) /\ c.o.v = v /\ Len(c.o.t) = 16
     /\ \A i \in 1..16 : LET e == c.o.t[i] mine == v[1] = i - 1
                         IN /\ e.k = i - 1 /\ e.is = mine /\ e.mut = mine
                            /\ e.as = (IF mine THEN <<v>> ELSE <<>>) /\ e.to = (IF mine THEN <<v>> ELSE <<>>) /\ e.try = (IF mine THEN <<v>> ELSE <<>>)
                            /\ e.err = (IF mine THEN <<>> ELSE <<v[1], i - 1>>)
     /\ c.o.store = (IF v[1] = 8 THEN <<v[2]>> ELSE <<v[1]>>)
     /\ v[1] # 4 => c.o.natives = [i \in 1..12 |-> <<v[1], 4>>]

(******************************** printing *********************************)
ShowOk(c) == Done(c.o) /\ c.o.v = c.want /\ ShownAs(c.want, c.o.text) /\ (c.want[1] = 8 => ShownAs(c.want, c.o.stext))

(***************************** state machines ******************************)
BitsHist(c) ==
  /\ Done(c.o) /\ Len(c.o.obs) = Len(c.ops)
  /\ FoldLeft(LAMBDA a, i : IF ~a[1] THEN a
                            ELSE LET r == BL!Apply(a[2], c.ops[i][1], c.ops[i][2])
                                     v == BL!View(r[1])
                                     ob == c.o.obs[i]
                                 IN <<ob.ret = r[2] /\ \A f \in DOMAIN v : ob[f] = v[f], r[1]>>,
              <<TRUE, <<>>>>, Idx(Len(c.ops)))[1]
CursorHist(c) ==
  /\ Done(c.o) /\ Len(c.o.obs) = Len(c.ops)
  /\ FoldLeft(LAMBDA a, i : IF ~a[1] THEN a
                            ELSE LET r == CM!Apply(c.n, a[2], c.ops[i][1], c.ops[i][2])
                                     v == CM!View(c.n, r[1])
                                     ob == c.o.obs[i]
                                 IN <<ob.ret \in r[2] /\ \A f \in DOMAIN v : ob[f] = v[f], r[1]>>,
              <<TRUE, 0>>, Idx(Len(c.ops)))[1]
BitsDec(c) == LET r == DecBits(c.b, 1) IN r.ok => Done(c.o) /\ c.o.v = r.v /\ c.o.p = r.p - 1
BigBits(c) == Done(c.o) /\ c.o.len = c.n /\ c.o.left = 0 /\ c.o.eq /\ c.o.ser = Len(EncNat(c.n)) + (c.n + 7) \div 8
              /\ c.o.ones = (c.n + c.k - 1) \div c.k /\ c.o.last = ((c.n - 1) % c.k = 0)

(****************************** web handlers *******************************)
Octets == "application/octet-stream"
Read_(what, b) == IF what = "store" THEN DecStore(b) ELSE DecVal(b, 1, <<>>)
\* an answer that holds v
Answers(what, a, v) == a.s = 200 /\ a.t = Octets /\ LET r == Read_(what, a.b) IN r.ok /\ r.v = v /\ (what = "value" => r.p = Len(a.b) + 1)
Turned(o, s) == /\ o.r = "refused" /\ o.a.status = s /\ o.a.says # <<>> /\ o.a.shown = o.a.says
                /\ \A a \in {o.a, o.plain, o.maybe} : a.s = s /\ a.text = o.a.says
Arrives(c, v) == Done(c.o) /\ c.o.v = v /\ Answers(c.what, c.o.plain, v) /\ Answers(c.what, c.o.maybe, v)
TakeOk(c) ==
  IF c.breaks \/ c.bad THEN Turned(c.o, 400)
  ELSE IF c.known THEN Arrives(c, c.want)
  ELSE LET r == Read_(c.what, c.b)
       IN IF r.ok THEN Arrives(c, r.v) ELSE Turned(c.o, 400) \/ (Done(c.o) /\ c.o.plain.s = 200 /\ c.o.maybe.s = 200)
GiveOk(c) == Done(c.o) /\ c.o.v = c.want /\ Answers(c.what, c.o.a, c.want)
\* what the framework takes when nothing else is said
SizeOk(c) == Done(c.o) /\ IF c.o.len > 2097152 THEN c.o.s = 413 ELSE IF c.what = "store" THEN c.o.s = 400 ELSE c.o.s = 200 /\ c.o.same

(***************************** the judgement *******************************)
Verdict(c) ==
  CASE c.chk = "store" -> Done(c.o) /\ c.o.v = c.want /\ Len(c.o.enc) > 8 /\ SubSeq(c.o.enc, 1, 8) = Magic
                          /\ Done(c.o.dec) /\ c.o.dec.v = c.want /\ (c.nan \/ c.o.dec.eq)
    [] c.chk = "store.read" -> Done(c.o) /\ LET r == DecStore(c.o.enc) IN r.ok /\ r.v = c.want
    [] c.chk = "store.dec" -> Done(c.o) /\ c.o.v = c.want
    [] c.chk = "refused" -> Refused(c.o)
    [] c.chk = "value" -> RoundTrip(c.o, c.want)
    [] c.chk = "value.read" -> ReadByOthers(c.o, c.want)
    [] c.chk = "value.dec" -> Done(c.o) /\ c.o.v = c.want /\ c.o.p = c.len
    [] c.chk = "value.same" -> LET r == DecVal(c.b, 1, c.d) IN Calm(c.o) /\ (r.ok => Done(c.o) /\ c.o.v = r.v /\ c.o.p = r.p - 1)
    [] c.chk = "store.same" -> LET r == DecStore(c.b) IN Calm(c.o) /\ (r.ok => Done(c.o) /\ c.o.v = r.v)
    [] c.chk = "deep" -> DeepOk(c)
    [] c.chk = "take" -> TakeOk(c)
    [] c.chk = "give" -> GiveOk(c)
    [] c.chk = "size" -> SizeOk(c)
    [] c.chk = "nested" -> Done(c.o) /\ c.o.eq /\ c.o.found = c.n /\ c.o.written <= Allowed(c.n) \div 8 /\ c.o.read <= Allowed(c.n) \div 8 /\ c.o.last = <<1, <<119, 105, 116, 104, 105, 110>>>>
    [] c.chk = "seq" -> Done(c.o) /\ c.o.vs = c.want /\ c.o.got = c.want /\ c.o.left = 0
    [] c.chk = "calm" -> Calmly(c)
    [] c.chk = "blob" -> BlobOk(c)
    [] c.chk = "blob.read" -> BlobRead(c)
    [] c.chk = "blob.dec" -> Done(c.o) /\ c.o.v = c.want /\ c.o.p = c.len
    [] c.chk = "bigblob" -> BigBlobOk(c)
    [] c.chk = "dict" -> DictOk(c)
    [] c.chk = "english" -> EnglishOk(c)
    [] c.chk = "dictc" -> LongDictOk(c)
    [] c.chk = "dict8" -> Dict8Ok(c)
    [] c.chk = "dict.dec" -> Done(c.o) /\ c.o.ser = c.b /\ c.o.p = Len(c.b)
    [] c.chk = "dbits" -> LET t == DecTree(c.d, 1, 0, TRUE) r == DecCode(t.v, c.bits) IN IF r.ok THEN Done(c.o) /\ c.o.v = r.v ELSE Calm(c.o)
    [] c.chk = "bits" -> BitsHist(c)
    [] c.chk = "bits.dec" -> BitsDec(c)
    [] c.chk = "bigbits" -> BigBits(c)
    [] c.chk = "cursor" -> CursorHist(c)
    [] c.chk = "int.native" -> IntNative(c)
    [] c.chk = "int.text" -> IntText(c)
    [] c.chk = "int.layout" -> IntLayout(c)
    [] c.chk = "idec" -> IntDec(c)
    [] c.chk = "idec.native" -> IntDecNative(c)
    [] c.chk = "idec.text" -> IntDecText(c)
    [] c.chk = "parse" -> ParseOk(c)
    [] c.chk = "arith" -> ArithOk(c)
    [] c.chk = "ieq" -> IntEq(c)
    [] c.chk = "veq" -> ValEq(c)
    [] c.chk = "mapeq" -> MapEq(c)
    [] c.chk = "f64" -> FloatInt(c, F64(c.b), 52)
    [] c.chk = "f32" -> FloatInt(c, F32(c.b), 23)
    [] c.chk = "polar" -> PolarOk(c)
    [] c.chk = "tofloat" -> ToFloat(c)
    [] c.chk = "cart" -> CartOk(c)
    [] c.chk = "json.typed" -> Typed(c)
    [] c.chk = "json.plain" -> PlainOk(c)
    [] c.chk = "sjson.typed" -> StoreTyped(c)
    [] c.chk = "sjson.plain" -> StorePlain(c)
    [] c.chk = "json.in" -> JsonIn(c)
    [] c.chk = "serde" -> SerdeOk(c)
    [] c.chk = "struct" -> StructOk(c)
    [] c.chk = "kinds" -> KindsOk(c)
    [] c.chk = "show" -> ShowOk(c)

(******************* one state per case, in parallel blocks ****************)
CASES == ndJsonDeserialize(IOEnv.CASES)
BLOCKS == 61
VARIABLES blk, at
Init == blk \in 0..(BLOCKS - 1) /\ at = -1
Next == /\ (at + 1) * BLOCKS + blk + 1 <= Len(CASES)
        /\ at' = at + 1
        /\ UNCHANGED blk
Case == at * BLOCKS + blk + 1
Accepted == at = -1 \/ Verdict(CASES[Case]) \/ (PrintT(<<"REJECTED", Case>>) /\ FALSE)
=============================================================================

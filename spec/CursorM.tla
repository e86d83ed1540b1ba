------------------------------- MODULE CursorM -------------------------------
(***************************************************************************)
(* A cursor over n items, 1 to n: the state is its position.  Offsets may  *)
(* be far beyond 32 bits, so arguments are numbers <<neg, magnitude>>.     *)
(***************************************************************************)
EXTENDS Nums

\* a number as an int, or out of reach in its direction
Far == 1000000000
Clip(x) == IF Len(x[2]) > 3 THEN (IF x[1] = 1 THEN -Far ELSE Far) ELSE (IF x[1] = 1 THEN -NatOf(x[2]) ELSE NatOf(x[2]))
Items(n, p, k) == [i \in 1..k |-> p + i]
\* <<next position, answers allowed>>
Apply(n, p, op, arg) ==
  LET k == Clip(arg)
      fits(m) == p + m <= n
      read(m) == IF fits(m) THEN <<p + m, {<<Items(n, p, m)>>}>> ELSE <<p, {<<>>}>>
      peek(m) == IF fits(m) THEN <<p, {<<Items(n, p, m)>>}>> ELSE <<p, {<<>>}>>
      \* a position and whether seeks and moves report it
      to(q) == IF q >= 0 /\ q <= n THEN <<q, {<<q>>}>> ELSE <<p, {<<>>}>>
      nothing(r) == IF k = 0 /\ p = n THEN <<r[1], {<<>>, <<<<>>>>}>> ELSE r \* reading no items at the end: either way
  IN CASE op = "read" -> nothing(read(k))
       [] op = "peek" -> nothing(peek(k))
       [] op = "read2" -> read(2)
       [] op = "read0" -> IF p = n THEN <<p, {<<>>, <<<<>>>>}>> ELSE read(0)
       [] op = "peek3" -> peek(3)
       [] op = "next" -> IF p < n THEN <<p + 1, {<<p + 1>>}>> ELSE <<p, {<<>>}>>
       \* the items before it are passed
       [] op = "nth" -> IF k < n - p THEN <<p + k + 1, {<<p + k + 1>>}>> ELSE <<n, {<<>>}>>
       [] op = "by2" -> LET m == IF n - p < 2 THEN n - p ELSE 2 IN <<p + m, {Items(n, p, m)}>>
       [] op = "last" -> <<n, {IF p < n THEN <<n>> ELSE <<>>}>>
       [] op = "rest" -> <<n, {Items(n, p, n - p)}>>
       [] op = "peekrest" -> <<p, {Items(n, p, n - p)}>>
       [] op = "fwd" -> IF p + k <= n THEN <<p + k, {TRUE}>> ELSE <<p, {FALSE}>>
       [] op = "back" -> IF k <= p THEN <<p - k, {TRUE}>> ELSE <<p, {FALSE}>>
       [] op = "set" -> <<IF k > n THEN n ELSE k, {<<>>}>>
       [] op = "start" -> to(k)
       [] op = "end" -> to(n + k)
       [] op = "cur" -> to(p + k)

View(n, p) == [pos |-> p, left |-> n - p, fin |-> p = n, all |-> Items(n, p, n - p)]

CONSTANTS N
VARIABLES pos, last
Nat64 == {<<0, <<>>>>, <<0, <<1>>>>, <<0, <<2>>>>, <<0, <<3>>>>, <<0, <<4>>>>, <<0, <<7>>>>, <<0, <<0, 1>>>>,
          <<0, <<255, 255, 255, 255, 255, 255, 255, 127>>>>, <<0, <<0, 0, 0, 0, 0, 0, 0, 128>>>>,
          <<0, <<254, 255, 255, 255, 255, 255, 255, 255>>>>, <<0, <<255, 255, 255, 255, 255, 255, 255, 255>>>>}
Int64 == {x \in Nat64 : Fits(x, "i64")} \cup {Neg(x) : x \in {y \in Nat64 : Fits(Neg(y), "i64")}}
Ops == ({"read", "peek", "fwd", "back", "set", "start", "nth"} \X Nat64)
       \cup ({"end", "cur"} \X Int64)
       \cup ({"read2", "read0", "peek3", "next", "by2", "last", "rest", "peekrest"} \X {Zero})
Init == pos = 0 /\ last = <<>>
Next == \E o \in Ops : LET r == Apply(N, pos, o[1], o[2])
                       IN pos' = r[1] /\ last' = [op |-> o[1], arg |-> o[2], ret |-> r[2], view |-> View(N, r[1])]
Spec == Init /\ [][Next]_<<pos, last>>
InBounds == pos \in 0..N
PeeksStay == [][last'.op \in {"peek", "peek3", "peekrest"} => pos' = pos]_<<pos, last>>
RefusedStays == [][(last'.op \in {"fwd", "back"} /\ last'.ret = {FALSE}) \/ (last'.op \in {"start", "end", "cur", "next"} /\ last'.ret = {<<>>}) => pos' = pos]_<<pos, last>>
=============================================================================

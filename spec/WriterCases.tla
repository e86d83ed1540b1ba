----------------------------- MODULE WriterCases -----------------------------
(***************************************************************************)
(* Writes what is ordered in the ways the specification's writers can, and *)
(* checks that its own reader understands all of it.  One state per order. *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils, TLC

ORDERS == ndJsonDeserialize(IOEnv.CASES)
Sty(w) == [dict |-> IF w.dict = <<>> THEN <<>> ELSE <<TreeFor(w.dict[1])>>, str |-> w.str, len |-> w.len, pad |-> w.pad, comp |-> w.comp, sgn |-> w.sgn, rev |-> w.rev]
Write(o) ==
  CASE o.what = "value" -> LET s == Sty(o.w) b == EncVal(o.v, s) d == IF s.dict = <<>> THEN <<>> ELSE <<EncTree(s.dict[1], TRUE)>>
                           IN [b |-> b, d |-> d, good |-> LET r == DecVal(b, 1, s.dict) IN r.ok /\ r.v = o.v /\ r.p = Len(b) + 1]
    [] o.what = "store" -> LET s == Sty(o.w) b == EncStore(o.v, s, o.comp) IN [b |-> b, d |-> <<>>, good |-> LET r == DecStore(b) IN r.ok /\ r.v = o.v]
    [] o.what = "blob" -> LET b == EncBlob(o.comp, o.v) IN [b |-> b, d |-> <<>>, good |-> LET r == DecBlob(Scheme(o.comp), b, 1) IN r.ok /\ r.v = o.v /\ r.p = Len(b) + 1]
    [] o.what = "dict" -> LET t == TreeFor(o.v) b == EncTree(t, TRUE) IN [b |-> b, d |-> <<EncBits(EncCode(t, o.v))>>, good |-> LET r == DecTree(b, 1, 0, TRUE) IN r.ok /\ r.v = t /\ Len(EncCode(t, o.v)) = OptimalBits(o.v)]
BLOCKS == 61
VARIABLES blk, at
Init == blk \in 0..(BLOCKS - 1) /\ at = -1
Next == /\ (at + 1) * BLOCKS + blk + 1 <= Len(ORDERS)
        /\ at' = at + 1
        /\ UNCHANGED blk
N == at * BLOCKS + blk + 1
Understood == at = -1 \/ LET r == Write(ORDERS[N]) IN PrintT(<<"WROTE", ToJson([n |-> N, b |-> r.b, d |-> r.d])>>) /\ r.good
=============================================================================

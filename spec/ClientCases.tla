---------------------------- MODULE ClientCases ----------------------------
(***************************************************************************)
(* Recorded calls of the clients, judged one by one.                       *)
(*   call: one call against a server that recorded the requests it got     *)
(*         (wires) and gave a prepared answer                              *)
(*   hist: calls of both clients against the daemon, one after another     *)
(***************************************************************************)
EXTENDS Clients, Json, IOUtils, TLC

(* the request stands for the call, and its body holds what the call was given *)
Asks(c, call, w) ==
  LET q == Read([op |-> "raw", db |-> "", cp |-> <<>>, key |-> "", val |-> "", over |-> FALSE, create |-> FALSE, body |-> <<>>, raw |-> w])
  IN /\ SameRequest(q, Request(call))
     /\ q.op = "add_kv" => LET r == Bytes!DecVal(w.body, 1, <<>>) IN r.v = c.given /\ r.p = Len(w.body) + 1
     /\ q.op = "put_db" => Bytes!DecStore(w.body).v = c.given

Answered(c) ==
  CASE c.call.op = "list" -> Reports(c.call, c.s, c.readable, Ran(c.holds), c.o)
    [] c.call.op = "get" -> LET r == Bytes!DecStore(c.b)
                            IN IF Success(c.s) /\ c.readable # r.ok THEN FALSE
                               ELSE Reports(c.call, c.s, c.readable, IF r.ok THEN Ran(r.v) ELSE {}, c.o)
    [] c.call.op = "add" -> Reports(c.call, c.s, c.readable, Ran(c.holds), c.o)
    [] OTHER -> Reports(c.call, c.s, TRUE, {}, c.o)

OneCall(c) ==
  /\ c.served => Len(c.wires) > 0 /\ \A i \in 1..Len(c.wires) : Asks(c, c.call, c.wires[i])
  /\ c.s # 0 => Len(c.wires) = 1
  \* what changes something is never asked for again when the answer got lost: it may have been done
  /\ \A i \in 2..Len(c.wires) : c.wires[i].m = "GET"
  /\ Answered(c)

History(c) ==
  LET f == Follows(<<>>, c.calls, c.outs, 1)
      left == [i \in 1..Len(c.left) |-> c.left[i][1]]
  IN IF ~f.ok THEN PrintT(<<"DIFFERS", f.at>>) /\ FALSE
     ELSE /\ DOMAIN f.m = Ran(left)
          /\ \A i \in 1..Len(c.left) : Ran(c.left[i][2]) = f.m[c.left[i][1]]

Verdict(c) == CASE c.chk = "call" -> OneCall(c)
                [] c.chk = "hist" -> History(c)

CASES == ndJsonDeserialize(IOEnv.CASES)
BLOCKS == 61
VARIABLES blk, at
Init == blk \in 0..(BLOCKS - 1) /\ at = -1
Next == /\ (at + 1) * BLOCKS + blk + 1 <= Len(CASES)
        /\ at' = at + 1
        /\ UNCHANGED blk
Case == at * BLOCKS + blk + 1
Accepted == at = -1 \/ Verdict(CASES[Case]) \/ (PrintT(<<"REJECTED", Case>>) /\ FALSE)
=============================================================================

------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* What the daemon is, seen from outside: a map from names to databases,    *)
(* each a set of <<key, value>> with one value for a key.                   *)
(*                                                                         *)
(* A request is a record [op, db, cp, key, val, over, create, body]; fields *)
(* that an operation does not use are there all the same.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Names

Keys(s) == {p[1] : p \in s}
Without(s, k) == {p \in s : p[1] # k}
Joined(s, t) == {p \in s : p[1] \notin Keys(t)} \cup t
Put(m, d, s) == [x \in DOMAIN m \cup {d} |-> IF x = d THEN s ELSE m[x]]
Del(m, d) == [x \in DOMAIN m \ {d} |-> m[x]]
Get(m, d) == IF d \in DOMAIN m THEN <<m[d]>> ELSE <<>>
Ran(q) == {q[i] : i \in 1..Len(q)}

OK == 200
Created == 201
BadRequest == 400
Gone == 410
Failed == 500
ClientError == 4  \* any from 400 to 499

Writes == {"add_db", "put_db", "rm_db", "clear", "add_kv", "rm_kv"}

(* the state after a request, its status, and what is in its answer *)
Answer(m, s, b) == [m |-> m, s |-> s, b |-> b]
Exec(m, r) ==
  LET here == r.db \in DOMAIN m
      s == m[r.db]
      Nothing(x) == Answer(m, x, {})
  IN CASE r.op = "health" -> Nothing(OK)
       [] r.op = "names" -> Answer(m, OK, DOMAIN m)
       [] r.op = "get_db" -> IF here THEN Answer(m, OK, s) ELSE Nothing(Gone)
       [] r.op = "get_kv" -> IF ~here THEN Nothing(Gone)
                             ELSE IF r.key \in Keys(s) THEN Answer(m, OK, {p[2] : p \in {q \in s : q[1] = r.key}})
                             ELSE Nothing(BadRequest)
       [] r.op = "add_db" -> IF ~ValidName(r.cp) THEN Nothing(BadRequest)
                             ELSE IF ~here THEN Answer(Put(m, r.db, {}), Created, {})
                             ELSE Answer(IF r.over THEN Put(m, r.db, {}) ELSE m, OK, {})
       [] r.op = "put_db" -> IF ~ValidName(r.cp) THEN Nothing(BadRequest)
                             ELSE IF ~here THEN Answer(Put(m, r.db, Ran(r.body)), Created, {})
                             ELSE Answer(Put(m, r.db, IF r.over THEN Ran(r.body) ELSE Joined(s, Ran(r.body))), OK, {})
       [] r.op = "rm_db" -> IF here THEN Answer(Del(m, r.db), OK, {}) ELSE Nothing(Gone)
       [] r.op = "clear" -> IF here THEN Answer(Put(m, r.db, {}), OK, {}) ELSE Nothing(Gone)
       [] r.op = "rm_kv" -> IF ~here THEN Nothing(Gone)
                            ELSE IF r.key \in Keys(s) THEN Answer(Put(m, r.db, Without(s, r.key)), OK, {})
                            ELSE Nothing(BadRequest)
       [] r.op = "add_kv" ->
            LET new == <<r.key, r.val>>
            IN IF ~here
               THEN IF ~r.create THEN Answer(m, OK, {"UnableToFindDB"})
                    ELSE IF ~ValidName(r.cp) THEN Nothing(BadRequest)
                    ELSE Answer(Put(m, r.db, {new}), OK, {"InsertedKeyIntoNewDB"})
               ELSE IF r.key \notin Keys(s) THEN Answer(Put(m, r.db, s \cup {new}), OK, {"InsertedKeyIntoExistingDB"})
               ELSE IF r.over THEN Answer(Put(m, r.db, Without(s, r.key) \cup {new}), OK, {"OverwroteKeyInExistingDB"})
               ELSE Answer(m, OK, {"FoundExistingKey"})
       (* anything that is not a request the daemon knows *)
       [] r.op = "malformed" -> Nothing(ClientError)

(* a response [s, b] that was seen, with the content of its body listed in b *)
Says(x, resp) == IF x.s = ClientError THEN resp.s \in 400..499 ELSE resp.s = x.s /\ Len(resp.b) = Cardinality(x.b) /\ Ran(resp.b) = x.b
=============================================================================

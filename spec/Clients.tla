------------------------------ MODULE Clients ------------------------------
(***************************************************************************)
(* The two clients: what request each call stands for, and what it has to  *)
(* report of the answer.                                                   *)
(*                                                                         *)
(* A call is a record [kind, op, db, cp, key, over, create, val, body];    *)
(* what it reports is [r, s, t, ...]: r is "ok" or "err", s the status     *)
(* that an error carries (0: none), t a word, and with a list or a store   *)
(* what was in it.                                                         *)
(***************************************************************************)
EXTENDS DaemonHttp

Means == [new |-> "health", list |-> "names", create |-> "add_db", get |-> "get_db", put |-> "put_db", add |-> "add_kv", rm_key |-> "rm_kv", rm_db |-> "rm_db"]
Request(c) == [op |-> Means[c.op], db |-> c.db, cp |-> c.cp, key |-> c.key, val |-> c.val, over |-> c.over, create |-> c.create, body |-> c.body]

\* which fields of a request matter for an operation
SameRequest(x, y) ==
  /\ x.op = y.op
  /\ x.op \notin {"health", "names"} => x.db = y.db /\ x.cp = y.cp
  /\ x.op \in {"add_kv", "rm_kv"} => x.key = y.key
  /\ x.op \in {"add_kv", "add_db", "put_db"} => x.over = y.over
  /\ x.op = "add_kv" => x.create = y.create

Success(s) == s \in 200..299
\* how a failed request is reported: the status that came, or none when there was no answer
Error(o, s) == o.r = "err" /\ o.s = (IF s \in 400..599 THEN s ELSE 0)
Fine(o, t) == o.r = "ok" /\ o.t = t
YesNo(b) == IF b THEN "true" ELSE "false"
Outcomes == {"InsertedKeyIntoExistingDB", "OverwroteKeyInExistingDB", "FoundExistingKey", "InsertedKeyIntoNewDB", "UnableToFindDB"}

(* what the call c may report (o) of an answer with status s (0: no complete answer came); its body holds b,
   a set (of names, of entries, of one word), and is of the kind that was asked for when readable is TRUE *)
Reports(c, s, readable, b, o) ==
  IF ~Success(s)
  THEN CASE s = Gone /\ c.kind = "async" /\ c.op = "get" -> Fine(o, "none")
         [] s = Gone /\ c.kind = "async" /\ c.op = "rm_db" -> Fine(o, "false")
         \* its documentation says both that this is no error and that it is one
         [] s \in {Gone, BadRequest} /\ c.kind = "async" /\ c.op = "rm_key" -> Fine(o, "") \/ Error(o, s)
         [] OTHER -> Error(o, s)
  ELSE CASE c.op = "new" -> IF s = OK THEN Fine(o, "") ELSE o.r = "err"
         [] c.op = "list" -> IF readable THEN Fine(o, "") /\ Len(o.names) = Cardinality(b) /\ Ran(o.names) = b ELSE Error(o, 0)
         [] c.op \in {"create", "put"} -> s \in {OK, Created} => Fine(o, YesNo(s = Created))
         [] c.op = "get" -> IF readable THEN Fine(o, "some") /\ Len(o.store) = Cardinality(b) /\ Ran(o.store) = b ELSE Error(o, 0)
         [] c.op = "add" -> IF readable THEN \E w \in b : Fine(o, w) ELSE Error(o, 0)
         [] c.op = "rm_key" -> Fine(o, "")
         [] c.op = "rm_db" -> Fine(o, IF c.kind = "async" THEN "true" ELSE "")

(* A whole history of calls, each made against the daemon as the calls before have left it. *)
RECURSIVE Follows(_, _, _, _)
Follows(m, calls, outs, i) ==
  IF i > Len(calls) THEN [ok |-> TRUE, m |-> m, at |-> 0]
  ELSE LET c == calls[i]
           a == Exec(m, Request(c))
       IN IF Reports(c, a.s, TRUE, a.b, outs[i]) THEN Follows(a.m, calls, outs, i + 1) ELSE [ok |-> FALSE, m |-> m, at |-> i]
=============================================================================

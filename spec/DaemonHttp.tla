----------------------------- MODULE DaemonHttp -----------------------------
(* Requests as they come over the wire: which of them mean something, and what. *)
EXTENDS Daemon
Bytes == INSTANCE Codec

Route(m, path, op, text, flag, body) == [m |-> m, path |-> path, op |-> op, text |-> text, flag |-> flag, body |-> body]
Routes == {
  Route("GET", "/healthcheck", "health", {}, {}, "none"),
  Route("GET", "/v1/get_all_db_names", "names", {}, {}, "none"),
  Route("GET", "/v1/get_db", "get_db", {"db_name"}, {}, "none"),
  Route("POST", "/v1/add_db", "add_db", {"db_name"}, {"overwrite_existing"}, "none"),
  Route("PUT", "/v1/add_db_with_content", "put_db", {"db_name"}, {"overwrite_existing"}, "store"),
  Route("POST", "/v1/rm_db", "rm_db", {"db_name"}, {}, "none"),
  Route("POST", "/v1/clear_db", "clear", {"db_name"}, {}, "none"),
  Route("PUT", "/v1/add_kv", "add_kv", {"db_name", "key"}, {"create_new_database", "overwrite_key"}, "value"),
  Route("POST", "/v1/rm_kv", "rm_kv", {"db_name", "key"}, {}, "none"),
  Route("GET", "/v1/get_value", "get_kv", {"db_name", "key"}, {}, "none")}

(* w.params: <<name, value, the value as code points>>; w.body: bytes *)
Times(w, n) == Cardinality({j \in 1..Len(w.params) : w.params[j][1] = n})
Param(w, n) == w.params[CHOOSE j \in 1..Len(w.params) : w.params[j][1] = n]
WellFormed(w, rt) ==
  /\ w.m = rt.m
  /\ \A n \in rt.text \cup rt.flag : Times(w, n) = 1
  /\ \A n \in rt.flag : Param(w, n)[2] \in {"true", "false"}
  /\ CASE rt.body = "none" -> TRUE
       [] rt.body = "value" -> Bytes!DecVal(w.body, 1, <<>>).ok
       [] rt.body = "store" -> Bytes!DecStore(w.body).ok

(* The request that one on the wire stands for. What a well-formed body holds is given beside it. *)
Read(r) ==
  IF r.op # "raw" THEN r
  ELSE LET w == r.raw
           rts == {x \in Routes : x.path = w.path}
           rt == CHOOSE x \in rts : TRUE
           Flag(n) == n \in rt.flag /\ Param(w, n)[2] = "true"
       IN IF rts = {} THEN [r EXCEPT !.op = "malformed"]
          ELSE IF ~WellFormed(w, rt) THEN [r EXCEPT !.op = "malformed"]
          ELSE [r EXCEPT !.op = rt.op,
                         !.db = IF "db_name" \in rt.text THEN Param(w, "db_name")[2] ELSE "",
                         !.cp = IF "db_name" \in rt.text THEN Param(w, "db_name")[3] ELSE <<>>,
                         !.key = IF "key" \in rt.text THEN Param(w, "key")[2] ELSE "",
                         !.over = Flag("overwrite_existing") \/ Flag("overwrite_key"),
                         !.create = Flag("create_new_database")]
=============================================================================

------------------------------ MODULE DaemonMC ------------------------------
(* Explores the daemon as a map of databases exhaustively, for few names, keys and values; every step is written out, *)
(* to be replayed into the real one.                                                                                 *)
EXTENDS Daemon, Json, TLC
CONSTANTS KeySet, ValSet
Names2 == {"a", "b"}
Cp == [d \in {"a", "b", "meta"} |-> CASE d = "a" -> <<97>> [] d = "b" -> <<98>> [] OTHER -> Reserved]
VARIABLES mem, last

Base == [op |-> "health", db |-> "", cp |-> <<>>, key |-> "", val |-> 0, over |-> FALSE, create |-> FALSE, body |-> <<>>]
For(op, d) == [Base EXCEPT !.op = op, !.db = d, !.cp = Cp[d]]
Bodies == {<<>>} \cup {<<<<k, v>>>> : k \in KeySet, v \in ValSet}
Requests ==
  {Base, [Base EXCEPT !.op = "names"]}
  \cup {For(op, d) : op \in {"get_db", "rm_db", "clear"}, d \in DOMAIN Cp}
  \cup {[For("add_db", d) EXCEPT !.over = o] : d \in DOMAIN Cp, o \in BOOLEAN}
  \cup {[For("put_db", d) EXCEPT !.over = o, !.body = b] : d \in DOMAIN Cp, o \in BOOLEAN, b \in Bodies}
  \cup {[For(op, d) EXCEPT !.key = k] : op \in {"get_kv", "rm_kv"}, d \in DOMAIN Cp, k \in KeySet}
  \cup {[For("add_kv", d) EXCEPT !.key = k, !.val = v, !.over = o, !.create = c] : d \in DOMAIN Cp, k \in KeySet, v \in ValSet, o \in BOOLEAN, c \in BOOLEAN}

Init == mem = <<>> /\ last = <<>>
Next == \E r \in Requests : LET x == Exec(mem, r) IN mem' = x.m /\ last' = <<r, x.s, x.b>>
Spec == Init /\ [][Next]_<<mem, last>>

Stores == {s \in SUBSET (KeySet \X ValSet) : \A p, q \in s : p[1] = q[1] => p = q}
IsMap == DOMAIN mem \subseteq Names2 /\ \A d \in DOMAIN mem : mem[d] \in Stores
(* what is refused changes nothing; what is asked of one database changes no other; reads change nothing *)
Refused == [][last'[2] >= 400 => mem' = mem]_<<mem, last>>
Apart == [][\A d \in Names2 : d # last'[1].db => Get(mem', d) = Get(mem, d)]_<<mem, last>>
Reads == [][last'[1].op \notin Writes => mem' = mem]_<<mem, last>>
(* what was written is read *)
ReadBack == [][/\ last'[1].op = "add_kv" /\ last'[3] \subseteq {"InsertedKeyIntoNewDB", "InsertedKeyIntoExistingDB", "OverwroteKeyInExistingDB"} /\ last'[3] # {}
                 => Exec(mem', [last'[1] EXCEPT !.op = "get_kv"]).b = {last'[1].val}]_<<mem, last>>
Only == mem
Out == PrintT(<<"STEP", ToJson(<<mem, last'[1], <<last'[2], last'[3]>>, mem'>>)>>)
=============================================================================

------------------------------- MODULE Mouse -------------------------------
(***************************************************************************)
(* The interactive tool: a dialogue for every command, and what it does to *)
(* the databases.  Texts are sequences of code points, values are as in    *)
(* Codec.                                                                  *)
(*                                                                         *)
(* A command is [op, name, src, jd, between, ...]; between lists what other *)
(* clients ask of the daemon while the tool waits for its last answer.     *)
(* What the user answers, in order:                                        *)
(* <<"yes">>, <<"no">>, <<"text", t>>, <<"pick", t>>, <<"value", v>>       *)
(* (a value spelt out at the prompts of its kind).                         *)
(* A result is [m, code, used, file]: the databases afterwards, whether    *)
(* the tool ends well (0) or with an error (1), how many answers it took,  *)
(* and the document that was written (<<>>: no file).                      *)
(***************************************************************************)
EXTENDS Daemon, JsonImage, SequencesExt

Res(m, code, used, file) == [m |-> m, code |-> code, used |-> used, file |-> file]
Req(op, db, key, val, body) == [op |-> op, db |-> db, cp |-> db, key |-> key, val |-> val, over |-> TRUE, create |-> TRUE, body |-> body]
\* a request of the tool: an answer of success ends it well
Do(m, r, used) == LET a == Exec(m, r) IN Res(a.m, IF a.s < 400 THEN 0 ELSE 1, used, <<>>)
Has(ans, i, k) == i <= Len(ans) /\ ans[i][1] = k
Ends(m, used) == Res(m, 1, used, <<>>)
\* the answers do not fit the dialogue
Stuck == [m |-> <<>>, code |-> 9, used |-> 0, file |-> <<>>]

Found(name, i) == [ok |-> TRUE, name |-> name, i |-> i]
NotFound(i) == [ok |-> FALSE, name |-> <<>>, i |-> i]
Lost == [ok |-> FALSE, name |-> <<>>, i |-> -1]

\* the name of a new database: asked for until it is neither reserved nor refused
RECURSIVE NewName(_, _, _)
NewName(m, ans, i) ==
  IF ~Has(ans, i, "text") THEN Lost
  ELSE LET t == ans[i][2]
       IN IF t = <<>> THEN NewName(m, ans, i + 1)
          ELSE IF t = Reserved THEN NewName(m, ans, i + 1)
          ELSE IF t \notin DOMAIN m THEN Found(t, i + 1)
          ELSE IF Has(ans, i + 1, "yes") THEN Found(t, i + 2)
          ELSE IF Has(ans, i + 1, "no") THEN NewName(m, ans, i + 2)
          ELSE Lost
\* one of the databases there are; without a choice, no question
OldName(m, ans, i) ==
  IF DOMAIN m = {} THEN NotFound(i)
  ELSE IF Cardinality(DOMAIN m) = 1 THEN Found(CHOOSE n \in DOMAIN m : TRUE, i)
  ELSE IF Has(ans, i, "pick") /\ ans[i][2] \in DOMAIN m THEN Found(ans[i][2], i + 1)
  ELSE Lost
AnyName(m, ans, i) ==
  IF Has(ans, i, "yes") THEN NewName(m, ans, i + 1)
  ELSE IF Has(ans, i, "no") THEN OldName(m, ans, i + 1)
  ELSE Lost

RECURSIVE Text(_, _)
Text(ans, i) == IF ~Has(ans, i, "text") THEN Lost ELSE IF ans[i][2] = <<>> THEN Text(ans, i + 1) ELSE Found(ans[i][2], i + 1)

\* what remains when an entry was found and its fate is confirmed or not
Confirmed(m, ans, i, r) == IF Has(ans, i, "yes") THEN Do(m, r, i) ELSE IF Has(ans, i, "no") THEN Res(m, 0, i, <<>>) ELSE Stuck

AsMap(s) == <<8, Sorted(SetToSeq(s))>>
(* what a file to be imported holds: <<entries>>, or <<>> if it cannot be read.
   c.src is <<"export", typed, entries>> for a file the tool wrote, <<"doc", document>>, or <<"bad">> *)
Holds(c) ==
  CASE c.src[1] = "bad" -> <<>>
    [] c.src[1] = "doc" -> <<Import(c.src[2])[2]>>
    [] c.src[1] = "export" -> <<IF c.src[2] THEN Norm(<<8, c.src[3]>>, c.jd)[2] ELSE Import(Plain(<<8, c.src[3]>>, c.jd)[1])[2]>>

\* the databases when the last answer is given
RECURSIVE Meanwhile(_, _)
Meanwhile(m, rs) == IF rs = <<>> THEN m
                    ELSE LET r == rs[1] IN Meanwhile(Exec(m, Req(r.op, r.db, r.key, r.val, r.body)).m, Tail(rs))

(* what is asked is asked about the databases at the beginning; what is done is done to those there are then *)
Tool(m, c, ans) ==
  LET l == Meanwhile(m, c.between) IN
  CASE c.op = "create-new" ->
        IF c.name \in DOMAIN m /\ Has(ans, 1, "no") THEN Res(l, 0, 1, <<>>)
        ELSE IF c.name \in DOMAIN m /\ ~Has(ans, 1, "yes") THEN Stuck
        ELSE Do(l, Req("add_db", c.name, <<>>, <<>>, <<>>), IF c.name \in DOMAIN m THEN 1 ELSE 0)
    [] c.op \in {"view-all", "debug-view-all"} ->
        LET n == OldName(m, ans, 1) IN IF n = Lost THEN Stuck ELSE IF ~n.ok THEN Ends(l, n.i - 1) ELSE Res(l, 0, n.i - 1, <<>>)
    [] c.op = "add-entry" ->
        LET n == AnyName(m, ans, 1)
            k == Text(ans, n.i)
        IN IF n = Lost THEN Stuck
           ELSE IF ~n.ok THEN Ends(l, n.i - 1)
           ELSE IF k = Lost \/ ~Has(ans, k.i, "value") THEN Stuck
           ELSE Confirmed(l, ans, k.i + 1, Req("add_kv", n.name, k.name, ans[k.i][2], <<>>))
    [] c.op \in {"remove-entry", "update-entry"} ->
        LET n == OldName(m, ans, 1)
            upd == c.op = "update-entry"
        IN IF n = Lost THEN Stuck
           ELSE IF ~n.ok THEN Ends(l, n.i - 1)
           ELSE IF m[n.name] = {} THEN Res(l, 0, n.i - 1, <<>>)
           ELSE IF ~Has(ans, n.i, "pick") \/ ans[n.i][2] \notin Keys(m[n.name]) THEN Stuck
           ELSE IF upd /\ ~Has(ans, n.i + 1, "value") THEN Stuck
           ELSE Confirmed(l, ans, IF upd THEN n.i + 2 ELSE n.i + 1,
                          IF upd THEN Req("add_kv", n.name, ans[n.i][2], ans[n.i + 1][2], <<>>) ELSE Req("rm_kv", n.name, ans[n.i][2], <<>>, <<>>))
    [] c.op = "remove-database" ->
        LET n == OldName(m, ans, 1)
        IN IF n = Lost THEN Stuck ELSE IF ~n.ok THEN Ends(l, n.i - 1) ELSE Do(l, Req("rm_db", n.name, <<>>, <<>>, <<>>), n.i - 1)
    [] c.op = "export-to-json" ->
        LET n == OldName(m, ans, 1)
        IN IF n = Lost THEN Stuck
           ELSE IF ~n.ok THEN Ends(l, n.i - 1)
           ELSE Res(l, 0, n.i - 1, Plain(AsMap(m[n.name]), c.jd))
    [] c.op = "import-from-json" ->
        IF Holds(c) = <<>> THEN Ends(l, 0)
        ELSE LET n == AnyName(m, ans, 1)
             IN IF n = Lost THEN Stuck ELSE IF ~n.ok THEN Ends(l, n.i - 1) ELSE Do(l, Req("put_db", n.name, <<>>, <<>>, Holds(c)[1]), n.i - 1)
=============================================================================

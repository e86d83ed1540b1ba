---------------------------- MODULE MouseCases -----------------------------
(* Recorded runs of the tool at a terminal, judged one by one. *)
EXTENDS Mouse, Show, Json, IOUtils

State(dbs) == [n \in {dbs[i][1] : i \in 1..Len(dbs)} |-> LET k == CHOOSE i \in 1..Len(dbs) : dbs[i][1] = n IN Ran(dbs[k][2])]

\* characters that take one column each, so that tables can be read by columns
Narrow(t) == \A i \in 1..Len(t) : t[i] \in (32..126) \cup (161..172) \cup (174..591)
RECURSIVE Tabular(_)
Tabular(v) == CASE v[1] = 0 -> Narrow(<<v[2]>>) \/ v[2] < 32
                [] v[1] = 1 -> \A i \in 1..Len(v[2]) : Narrow(<<v[2][i]>>) \/ v[2][i] < 32
                [] v[1] = 7 -> Narrow(v[2])
                [] v[1] = 8 -> \A i \in 1..Len(v[2]) : LET k == v[2][i][1] IN Narrow(k) /\ (k # <<>> => k[Len(k)] # 32) /\ Tabular(v[2][i][2])
                [] v[1] = 11 -> \A i \in 1..Len(v[2]) : Tabular(v[2][i])
                [] OTHER -> TRUE
\* the database that is looked at is shown
Seen(m, c) ==
  LET n == OldName(m, c.ans, 1)
      v == AsMap(m[n.name])
  IN n.ok /\ Tabular(v) => ShownAs(v, <<10>> \o c.shown)

(* c.before and c.after: the databases; c.used: how many answers were taken; c.code: how it ended;
   c.file: <<document>> that it wrote where it was told to, or <<>>; c.cut: it was interrupted at a prompt;
   c.between: what others did before the last answer, which every one of them was told to be done *)
Verdict(c) ==
  LET m == State(c.before)
      x == Tool(m, c, c.ans)
  IN IF c.cut THEN State(c.after) = m /\ c.file = <<>> /\ c.code # 0
     ELSE /\ x.code # 9
          /\ c.used = x.used /\ c.used = Len(c.ans)
          /\ State(c.after) = x.m
          /\ c.code = x.code
          /\ (c.op = "view-all" => Seen(m, c))
          /\ IF c.op = "export-to-json" /\ c.typed THEN (c.file = <<>>) = (x.file = <<>>) /\ \A i \in 1..Len(c.file) : c.file[i][1] = 6 ELSE c.file = x.file

CASES == ndJsonDeserialize(IOEnv.CASES)
BLOCKS == 61
VARIABLES blk, at
Init == blk \in 0..(BLOCKS - 1) /\ at = -1
Next == /\ (at + 1) * BLOCKS + blk + 1 <= Len(CASES)
        /\ at' = at + 1
        /\ UNCHANGED blk
Case == at * BLOCKS + blk + 1
Accepted == at = -1 \/ Verdict(CASES[Case]) \/ (PrintT(<<"REJECTED", Case>>) /\ FALSE)
=============================================================================

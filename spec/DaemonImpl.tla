----------------------------- MODULE DaemonImpl -----------------------------
(***************************************************************************)
(* How the daemon works, step by step: requests that take turns at a lock   *)
(* over the map of databases and at a cache of whole databases, a saver     *)
(* that writes file after file, removals that unlink, failing file          *)
(* operations, a stop that drains, and a death at any moment.               *)
(*                                                                         *)
(* It is checked against what a user relies on (abs, Life), and so is each  *)
(* of its variants Bug # "none", which must be found wanting: what they get *)
(* wrong, somebody may get wrong in the code.                               *)
(*                                                                         *)
(* A content is a number: 0 for an empty database, others for what the      *)
(* n-th request has written.                                                *)
(***************************************************************************)
EXTENDS Life, FiniteSets, TLC
CONSTANTS Dbs, Clients, MaxOps, MaxFaults, MaxLives, Bug

VARIABLES
  mem,    \* the map of databases
  lock,   \* who holds it: a client, Saver, or Nobody
  cache,  \* of whole databases
  req,    \* what each client's request is about to do
  sv,     \* what the saver is about to do
  known,  \* the databases of which there is something on disk that may be listed
  disk, tmp,  \* the files, and those not yet renamed
  phase,  \* run, drain (asked to stop), final (all answered), done
  abs,    \* the map as the outside may take it to be
  life,   \* what may be on disk
  wrong,  \* an answer that abs does not give, if there was one
  n, faults, lives
vars == <<mem, lock, cache, req, sv, known, disk, tmp, phase, abs, life, wrong, n, faults, lives>>

Nobody == "nobody"
Saver == "saver"
(* what is in a file: nothing that can be read, or something *)
Torn == <<>>
Whole(x) == <<x>>
Set(m, d, v) == [x \in DOMAIN m \cup {d} |-> IF x = d THEN v ELSE m[x]]
Cut(m, d) == [x \in DOMAIN m \ {d} |-> m[x]]
Empty == [x \in {} |-> 0]

(* ------------------------------------------------------------- what a start finds *)
Dead == "meta" \in DOMAIN disk /\ disk["meta"] = Torn
Listed == IF "meta" \in DOMAIN disk /\ ~Dead THEN disk["meta"][1] ELSE {}
Found ==
  IF Bug = "missing is empty" THEN [d \in Listed |-> IF d \in DOMAIN disk /\ disk[d] # Torn THEN disk[d][1] ELSE 0]
  ELSE [d \in {x \in Listed : x \in DOMAIN disk /\ disk[x] # Torn} |-> disk[d][1]]

Idle == [pc |-> "idle", op |-> "", db |-> "", v |-> 0, had |-> None, e |-> 0, ok |-> TRUE]
Asleep == [pc |-> "sleep", todo |-> {}, file |-> ""]
Init ==
  /\ mem = Empty /\ lock = Nobody /\ cache = Empty
  /\ req = [c \in Clients |-> Idle] /\ sv = Asleep
  /\ known = {} /\ disk = Empty /\ tmp = Empty /\ phase = "run"
  /\ abs = Empty /\ life = Born(Dbs, Empty) /\ wrong = ""
  /\ n = 0 /\ faults = 0 /\ lives = 1

(* ------------------------------------------------------------- requests *)
Go(c, pc) == [req EXCEPT ![c].pc = pc]
Mind(good, what) == wrong' = IF good THEN wrong ELSE what

Start(c) == \E op \in {"put", "new", "rm", "get"}, d \in Dbs :
  /\ phase = "run" /\ req[c].pc = "idle" /\ n < MaxOps
  /\ n' = n + 1
  /\ req' = [req EXCEPT ![c] = [Idle EXCEPT !.pc = IF op = "get" THEN "cached" ELSE "lock", !.op = op, !.db = d, !.v = n + 1]]
  /\ cache' = IF Bug = "invalidates before the lock" /\ op = "put" THEN Cut(cache, d) ELSE cache
  /\ UNCHANGED <<mem, lock, sv, known, disk, tmp, phase, abs, life, wrong, faults, lives>>

Cached(c) == LET r == req[c] IN
  /\ r.pc = "cached"
  /\ IF r.db \in DOMAIN cache
     THEN /\ Mind(<<cache[r.db]>> = At(abs, r.db), "outdated from the cache")
          /\ req' = Go(c, "reply")
     ELSE req' = Go(c, "lock") /\ UNCHANGED wrong
  /\ UNCHANGED <<mem, lock, cache, sv, known, disk, tmp, phase, abs, life, n, faults, lives>>

Lock(c) == LET r == req[c] IN
  /\ r.pc = "lock" /\ lock = Nobody
  /\ lock' = c
  /\ req' = Go(c, CASE r.op = "get" -> "read" [] r.op = "new" -> "change"
                    [] r.op = "put" /\ Bug \in {"invalidates before the lock", "does not invalidate"} -> "change"
                    [] OTHER -> "invalidate")
  /\ UNCHANGED <<mem, cache, sv, known, disk, tmp, phase, abs, life, wrong, n, faults, lives>>

Invalidate(c) == LET r == req[c] IN
  /\ r.pc = "invalidate"
  /\ cache' = Cut(cache, r.db)
  /\ IF r.op = "new"
     THEN /\ abs' = Set(abs, r.db, 0)  \* with overwrite; what was there is outdated from here on
          /\ lock' = Nobody /\ req' = Go(c, "reply")
     ELSE abs' = abs /\ lock' = lock /\ req' = Go(c, "change")
  /\ UNCHANGED <<mem, sv, known, disk, tmp, phase, life, wrong, n, faults, lives>>

Change(c) == LET r == req[c] d == r.db IN
  /\ r.pc = "change"
  /\ Mind(At(mem, d) = At(abs, d), "a change of something else")
  /\ CASE r.op = "put" -> /\ mem' = Set(mem, d, r.v) /\ abs' = Set(abs, d, r.v)
                          /\ lock' = Nobody /\ req' = Go(c, "reply")
       [] r.op = "new" -> mem' = Set(mem, d, 0) /\ req' = Go(c, "invalidate") /\ UNCHANGED <<abs, lock>>
       [] r.op = "rm" -> IF d \in DOMAIN mem
                         THEN /\ mem' = Cut(mem, d)
                              /\ req' = [req EXCEPT ![c].pc = "unlink", ![c].had = <<mem[d]>>,
                                                      ![c].e = life.ep[d] + 1]
                              /\ lock' = IF Bug = "unlinks after the lock" THEN Nobody ELSE lock
                              /\ abs' = IF Bug = "unlinks after the lock" THEN Cut(abs, d) ELSE abs
                         ELSE lock' = Nobody /\ req' = Go(c, "reply") /\ UNCHANGED <<mem, abs>>
  /\ life' = IF Bug = "unlinks after the lock" /\ r.op = "rm" /\ d \in DOMAIN mem THEN Removed(life, d) ELSE life
  /\ UNCHANGED <<cache, sv, known, disk, tmp, phase, n, faults, lives>>

Unlink(c) == LET r == req[c] d == r.db free == IF lock = c THEN Nobody ELSE lock IN
  /\ r.pc = "unlink"
  /\ disk' = IF Bug = "does not unlink" THEN disk ELSE Cut(disk, d)
  /\ known' = known \ {d}
  /\ req' = Go(c, "reply")
  /\ IF Bug = "unlinks after the lock" THEN UNCHANGED <<abs, life>>
     ELSE abs' = Cut(abs, d) /\ life' = Removed(life, d)
  /\ lock' = free
  /\ UNCHANGED <<mem, cache, sv, tmp, phase, wrong, n, faults, lives>>
UnlinkFails(c) == LET r == req[c] d == r.db IN
  /\ r.pc = "unlink" /\ faults < MaxFaults /\ Bug # "unlinks after the lock" /\ d \in DOMAIN disk
  /\ faults' = faults + 1
  /\ mem' = IF Bug = "gone if it cannot be unlinked" THEN mem ELSE Set(mem, d, r.had[1])
  /\ lock' = Nobody
  /\ req' = [req EXCEPT ![c].pc = "reply", ![c].e = 0]  \* saying so: nothing has changed
  /\ UNCHANGED <<cache, sv, known, disk, tmp, phase, abs, life, wrong, n, lives>>

ReadDb(c) == LET r == req[c] d == r.db IN
  /\ r.pc = "read"
  /\ Mind(At(mem, d) = At(abs, d), "something else was read")
  /\ IF d \in DOMAIN mem
     THEN /\ req' = [req EXCEPT ![c].pc = "remember", ![c].had = <<mem[d]>>]
          /\ lock' = IF Bug = "remembers after the lock" THEN Nobody ELSE lock
     ELSE req' = Go(c, "reply") /\ lock' = Nobody
  /\ UNCHANGED <<mem, cache, sv, known, disk, tmp, phase, abs, life, n, faults, lives>>
Remember(c) == LET r == req[c] IN
  /\ r.pc = "remember"
  /\ cache' = Set(cache, r.db, r.had[1])
  /\ lock' = IF lock = c THEN Nobody ELSE lock
  /\ req' = Go(c, "reply")
  /\ UNCHANGED <<mem, sv, known, disk, tmp, phase, abs, life, wrong, n, faults, lives>>
Reply(c) == LET r == req[c] IN
  /\ r.pc = "reply"
  /\ life' = IF r.op = "rm" /\ r.e > 0 THEN Forgotten(life, r.db, r.e - 1) ELSE life
  /\ req' = [req EXCEPT ![c] = Idle]
  /\ UNCHANGED <<mem, lock, cache, sv, known, disk, tmp, phase, abs, wrong, n, faults, lives>>

(* ------------------------------------------------------------- the saver *)
MayBegin == phase = "run" \/ phase = "final" \/ (Bug = "stops before all is answered" /\ phase = "drain")
Last == phase # "run"
Take ==
  /\ sv.pc = "sleep" /\ MayBegin /\ lock = Nobody /\ ~(Bug = "no last save" /\ Last)
  /\ lock' = IF Bug = "saves without the lock" THEN Nobody ELSE Saver
  /\ sv' = [Asleep EXCEPT !.pc = "next", !.todo = DOMAIN mem]
  /\ life' = Begin(life, abs, {}, {})
  /\ phase' = IF Last THEN "last" ELSE phase
  /\ UNCHANGED <<mem, cache, req, known, disk, tmp, abs, wrong, n, faults, lives>>
(* what is written of a file: without the lock it may be gone *)
What(f) == Whole(IF f = "meta" THEN known ELSE IF f \in DOMAIN mem THEN mem[f] ELSE 0)
(* what is written to a file of its own is not seen before it is renamed *)
Write(f, todo) ==
  /\ IF Bug = "writes in place" THEN disk' = Set(disk, f, Torn) /\ tmp' = tmp
     ELSE tmp' = Set(tmp, f, What(f)) /\ disk' = disk
  /\ sv' = [sv EXCEPT !.pc = "rename", !.file = f, !.todo = todo]
Pick ==
  /\ sv.pc = "next"
  /\ IF sv.todo = {}
     THEN Write("meta", {}) /\ lock' = IF lock = Saver THEN Nobody ELSE lock
     ELSE \E d \in sv.todo : Write(d, sv.todo \ {d}) /\ UNCHANGED lock
  /\ UNCHANGED <<mem, cache, req, known, phase, abs, life, wrong, n, faults, lives>>
After == IF sv.file = "meta" THEN [sv EXCEPT !.pc = "end"] ELSE [sv EXCEPT !.pc = "next"]
Rename ==
  /\ sv.pc = "rename"
  /\ disk' = Set(disk, sv.file, IF Bug = "writes in place" THEN What(sv.file) ELSE tmp[sv.file]) /\ tmp' = Cut(tmp, sv.file)
  /\ sv' = After
  /\ known' = IF sv.file = "meta" THEN known ELSE known \cup {sv.file}
  /\ UNCHANGED <<mem, lock, cache, req, phase, abs, life, wrong, n, faults, lives>>
FileFails ==
  /\ sv.pc = "rename" /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ life' = Fails(life, sv.file)
  /\ sv' = IF sv.file = "meta" THEN After
           ELSE IF Bug = "a failure ends the save" THEN [sv EXCEPT !.pc = "end"]
           ELSE After
  /\ known' = CASE Bug = "what failed is not listed" -> known \ {sv.file}
                [] Bug = "lists what was never written" -> known \cup ({sv.file} \ {"meta"})
                [] OTHER -> known
  /\ lock' = IF sv'.pc = "end" /\ lock = Saver THEN Nobody ELSE lock
  /\ UNCHANGED <<mem, cache, req, disk, tmp, phase, abs, wrong, n, lives>>
End ==
  /\ sv.pc = "end"
  /\ sv' = IF Bug = "a failure ends the saver" /\ life.hurt # {} THEN [Asleep EXCEPT !.pc = "dead"] ELSE Asleep
  /\ life' = Settle(life)
  /\ phase' = IF phase = "last" THEN "done" ELSE phase
  /\ UNCHANGED <<mem, lock, cache, req, known, disk, tmp, abs, wrong, n, faults, lives>>

(* ------------------------------------------------------------- the end *)
Stop == phase = "run" /\ phase' = "drain" /\ UNCHANGED <<mem, lock, cache, req, sv, known, disk, tmp, abs, life, wrong, n, faults, lives>>
Drained ==
  /\ phase = "drain" /\ \A c \in Clients : req[c].pc = "idle"
  /\ phase' = IF Bug = "no last save" /\ sv.pc = "sleep" THEN "done" ELSE "final"
  /\ UNCHANGED <<mem, lock, cache, req, sv, known, disk, tmp, abs, life, wrong, n, faults, lives>>
(* it dies, or has stopped, and is started again; what cannot be read then is not served, and not lost *)
Again == \E blind \in SUBSET DOMAIN Found :
  /\ lives < MaxLives /\ ~Dead
  /\ lives' = lives + 1
  /\ faults' = faults + Cardinality(blind) /\ faults' <= MaxFaults
  /\ mem' = [d \in DOMAIN Found \ blind |-> Found[d]] /\ abs' = mem'
  /\ known' = DOMAIN Found \ (IF Bug = "forgets what it could not read" THEN blind ELSE {})
  /\ life' = BornBlind(Dbs, Found, blind)
  /\ lock' = Nobody /\ cache' = Empty /\ req' = [c \in Clients |-> Idle] /\ sv' = Asleep /\ phase' = "run"
  /\ UNCHANGED <<disk, tmp, wrong, n>>

Request(c) == Cached(c) \/ Lock(c) \/ Invalidate(c) \/ Change(c) \/ Unlink(c) \/ UnlinkFails(c) \/ ReadDb(c) \/ Remember(c) \/ Reply(c)
Save == Take \/ Pick \/ Rename \/ FileFails \/ End
Next == (\E c \in Clients : Start(c) \/ Request(c)) \/ Save \/ Stop \/ Drained \/ Again
Spec == Init /\ [][Next]_vars
Fair == /\ \A c \in Clients : SF_vars(Lock(c)) /\ WF_vars(Request(c))
        /\ SF_vars(Take) /\ WF_vars(Save) /\ WF_vars(Drained)
LiveSpec == Spec /\ Fair

Sym == Permutations(Clients) \cup Permutations(Dbs)
(* ------------------------------------------------------------- what is relied on *)
TypeOk == DOMAIN mem \subseteq Dbs /\ DOMAIN cache \subseteq Dbs /\ lock \in Clients \cup {Saver, Nobody}
Answers == wrong = ""                                                          \* D01, D03
CacheIsRight == \A d \in DOMAIN cache : <<cache[d]>> = At(abs, d)              \* why D03 holds
MemIsRight == lock = Nobody => mem = abs                                        \* why D01 holds
NothingLost == ~Dead /\ KeepsAll(life, Found)                              \* D05, D06, D09, D12, at every moment
NothingBack == KeepsRemoved(life, Found)                                       \* D07
Stopped == phase = "done" /\ life.hurt = {} => Found = With(abs, life.hid)                      \* D08
Answered == \A c \in Clients : req[c].pc # "idle" ~> req[c].pc = "idle"        \* D02
Exits == phase = "drain" ~> phase = "done"                                      \* D08
Saves == [](phase = "run" => <>(sv.pc = "end" \/ phase = "done"))               \* D11
(* what is acknowledged gets to the disk *)
=============================================================================

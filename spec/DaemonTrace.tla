---------------------------- MODULE DaemonTrace ----------------------------
(***************************************************************************)
(* Is a recorded life of the daemon one that it may have?                   *)
(*                                                                         *)
(* Requests take effect one at a time between their start and their end.    *)
(* At moments nobody sees, a save takes all databases as they are; from     *)
(* then on a crash may leave any of them so, and once the save is over it   *)
(* must. Removals take effect on disk at once.                              *)
(*                                                                         *)
(* What could not be read at the start is not served, and not lost.         *)
(*                                                                         *)
(* The events of a trace:                                                   *)
(*   start id req [resp]   a request arrives (with the response it will get) *)
(*   end id                its response leaves                               *)
(*   left id               the client went away before                       *)
(*   adv idle              time passes: so much of it with nothing to do     *)
(*   idle                  nothing is going on                               *)
(*   image k rec again     what a start after a crash here would find, and   *)
(*                         what a start after a clean stop of that would     *)
(*   fault db op, heal     operations on the files of a database fail        *)
(*   signal, exit          it is asked to stop; it has stopped               *)
(*   bad                   it died, hung, or touched what is not its own     *)
(***************************************************************************)
EXTENDS DaemonHttp, Life, Json, IOUtils, TLC, TLCExt

CONSTANT Mode  \* what is asked for, of {"crash", "removed", "moment", "clock", "exit", "again", "alive", "escape"}

Traces == ndJsonDeserialize(IOEnv.TRACES)
Period == 10500  \* the saving period, and something for good measure

VARIABLES tr, i, mem, pend, lin, life, faults, clock
vars == <<tr, i, mem, pend, lin, life, faults, clock>>

T == Traces[tr].t
Dbs == Ran(Traces[tr].dbs)
Next1 == T[i]
Over == i > Len(T)

Map(rec) == [d \in {rec[j][1] : j \in 1..Len(rec)} |-> Ran(rec[CHOOSE j \in 1..Len(rec) : rec[j][1] = d][2])]

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 1
  /\ mem = [d \in DOMAIN Map(Traces[tr].start) \ Ran(Traces[tr].blind) |-> Map(Traces[tr].start)[d]]
  /\ pend = {} /\ lin = {}
  /\ life = BornBlind(Dbs, Map(Traces[tr].start), Ran(Traces[tr].blind))
  /\ faults = {}
  /\ clock = 0

(* nothing of the files of these can be changed *)
Stuck == {f[1] : f \in {g \in faults : g[2] = "*"}}
Hurt == {f[1] : f \in faults}

(* ------------------------------------------------------------ silent steps *)
Effect(p) ==
  LET r == Read(p.req)
      plain == Exec(mem, r)
      (* what needs the disk may fail, and then does nothing *)
      fail == IF r.op \in Writes /\ r.db \in Hurt THEN {Answer(mem, Failed, {})} ELSE {}
      (* what depends on how files are called *)
      open == IF r.op \in Writes /\ r.db \in Dbs /\ Open(r.cp)
              THEN {Answer(mem, BadRequest, {}), Exec(mem, [r EXCEPT !.cp = <<>>])} ELSE {}
  IN {plain} \cup fail \cup open

Lin == \E p \in pend : \E x \in Effect(p) :
  /\ ~Over /\ Next1.e # "start"
  /\ IF p.known THEN Says(x, p.resp) ELSE x.m # mem  \* one that nobody waits for matters only if it changes something
  /\ mem' = x.m
  /\ pend' = pend \ {p}
  /\ LET gone == Read(p.req).op = "rm_db" /\ x.s = OK
         d == Read(p.req).db
     IN /\ lin' = lin \cup {[id |-> p.id, db |-> d, gone |-> IF gone THEN life.ep[d] ELSE -1]}
        /\ life' = IF gone THEN Removed(life, d) ELSE life
  /\ UNCHANGED <<tr, i, faults, clock>>

Save ==
  (* of consequence only to what a crash may leave *)
  /\ Mode \cap {"crash", "moment", "removed", "clock"} # {}
  (* it may as well come later, if nothing but a start or an end does first *)
  /\ ~Over /\ Next1.e # "start" /\ (Next1.e \in {"end", "left"} => pend # {})
  /\ ~(life.saving /\ life.cur = mem /\ life.curEp = life.ep /\ life.hurt = Hurt /\ clock = 0)
  /\ life' = Begin(life, mem, Stuck, Hurt) /\ clock' = 0
  /\ UNCHANGED <<tr, i, mem, pend, lin, faults>>

(* ------------------------------------------------------------ what was seen *)
Step == ~Over /\ i' = i + 1 /\ tr' = tr
Start ==
  /\ Step /\ Next1.e = "start"
  /\ pend' = pend \cup {[id |-> Next1.id, req |-> Next1.req, known |-> Next1.known, resp |-> Next1.resp]}
  /\ UNCHANGED <<mem, lin, life, faults, clock>>
End ==
  /\ Step /\ Next1.e = "end"
  /\ \E l \in lin : /\ l.id = Next1.id
                    /\ lin' = lin \ {l}
                    /\ life' = IF l.gone < 0 THEN life ELSE Forgotten(life, l.db, l.gone)
  /\ UNCHANGED <<mem, pend, faults, clock>>
Left ==
  /\ Step /\ Next1.e = "left"
  /\ UNCHANGED <<mem, pend, lin, life, faults, clock>>
Adv ==
  /\ Step /\ Next1.e = "adv"
  /\ clock' = clock + Next1.idle
  /\ UNCHANGED <<mem, pend, lin, life, faults>>
Idle ==
  /\ Step /\ Next1.e = "idle"
  /\ "clock" \in Mode => clock <= Period
  /\ IF {"moment", "removed"} \cap Mode # {} THEN life' = Settle(life) ELSE UNCHANGED life
  /\ UNCHANGED <<mem, pend, lin, faults, clock>>
Fault ==
  /\ Step /\ Next1.e = "fault"
  /\ faults' = faults \cup {<<Next1.db, Next1.op>>}
  /\ life' = Fails(life, Next1.db)
  /\ UNCHANGED <<mem, pend, lin, clock>>
Heal ==
  /\ Step /\ Next1.e = "heal"
  /\ faults' = {}
  /\ life' = Healed(life)
  /\ UNCHANGED <<mem, pend, lin, clock>>
Signal ==
  /\ Step /\ Next1.e \in {"signal", "exit"}
  /\ UNCHANGED <<mem, pend, lin, life, faults, clock>>
Bad ==
  /\ Step /\ Next1.e = "bad" /\ Next1.k \notin Mode
  /\ UNCHANGED <<mem, pend, lin, life, faults, clock>>

(* nothing can have failed of the last save, which comes after the stop and all answers *)
Clean == LET J == {j \in 1..i : T[j].e \in {"end", "left", "signal"}}
         IN \A f \in 1..i : T[f].e = "fault" => \E j \in J, h \in f..i : h < j /\ T[h].e = "heal"
ImageOk(k, dead, R) ==
  /\ "crash" \in Mode => ~dead /\ DOMAIN R \subseteq Dbs /\ KeepsAll(life, R)
  /\ "moment" \in Mode /\ k = "idle" => ~dead /\ KeepsAll(life, R)
  /\ "removed" \in Mode => IF dead THEN TRUE ELSE KeepsRemoved(life, R)
  /\ "exit" \in Mode /\ k = "exit" /\ Clean => ~dead /\ R = With(mem, life.hid)
Image ==
  /\ Step /\ Next1.e = "image"
  /\ ImageOk(Next1.k, Next1.dead, Map(Next1.rec))
  /\ "again" \in Mode => Next1.same
  /\ life' = IF Next1.dead THEN life ELSE Seen(life, Map(Next1.rec))
  /\ UNCHANGED <<mem, pend, lin, faults, clock>>

Next == Lin \/ Save \/ Start \/ End \/ Left \/ Adv \/ Idle \/ Fault \/ Heal \/ Signal \/ Bad \/ Image
Spec == Init /\ [][Next]_vars

(* how far each trace can be followed; one that was followed to its end is not looked at further *)
Note == TLCSet(tr, IF i > TLCGet(tr) THEN i ELSE TLCGet(tr))
ASSUME \A n \in 1..Len(Traces) : TLCSet(n, 0)
Follow == Note /\ TLCGet(tr) <= Len(T)
Report == PrintT(<<"REACHED", [n \in 1..Len(Traces) |-> TLCGet(n)]>>)
=============================================================================

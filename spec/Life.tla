-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* What may be on disk, through a life of the daemon.                       *)
(*                                                                         *)
(* A save takes all databases as they are at one moment; from then on a     *)
(* crash may leave any of them so, and once the save is over it must.       *)
(* Removals take effect on disk at once, and begin a new epoch of the       *)
(* database: what was saved of an earlier one may not come back once the    *)
(* removal is acknowledged.                                                 *)
(*                                                                         *)
(* A record f of                                                            *)
(*   may     for each database <<epoch, content>> a crash may leave          *)
(*   ep      the epoch of each                                              *)
(*   saving  a save has begun                                               *)
(*   cur     what it saves, and curEp the epochs then                       *)
(*   hurt    databases (or "meta") some file operation of that save failed  *)
(*   hid     what is on disk of databases that this start could not read    *)
(* Contents are <<content>>, or <<>> for a database that is not there.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == <<>>
At(m, d) == IF d \in DOMAIN m THEN <<m[d]>> ELSE None

(* what is there, and what of it could not be read *)
BornBlind(dbs, m, blind) == LET ep == [d \in dbs |-> 0]
  IN [may |-> [d \in dbs |-> {<<0, At(m, d)>>}], ep |-> ep, saving |-> FALSE, cur |-> m, curEp |-> ep, hurt |-> {},
      hid |-> [d \in DOMAIN m \cap blind |-> m[d]]]
Born(dbs, m) == BornBlind(dbs, m, {})
With(m, h) == [d \in DOMAIN m \cup DOMAIN h |-> IF d \in DOMAIN m THEN m[d] ELSE h[d]]

(* removed; and that was acknowledged *)
Removed(f, d) == [f EXCEPT !.hid = [x \in DOMAIN @ \ {d} |-> @[x]], !.ep[d] = @ + 1, !.may[d] = @ \cup {<<f.ep[d] + 1, None>>}]
Forgotten(f, d, e) == [f EXCEPT !.may[d] = {x \in @ : x[1] > e}]

(* what there may be once the save under way is over *)
Settled(f) == [d \in DOMAIN f.may |->
  IF ~f.saving \/ d \in f.hurt \/ f.ep[d] # f.curEp[d] THEN f.may[d]
  ELSE {<<f.ep[d], At(f.cur, d)>>} \cup (IF "meta" \in f.hurt THEN {x \in f.may[d] : x[2] = None} ELSE {})]
Settle(f) == [f EXCEPT !.may = Settled(f), !.saving = FALSE]

(* a save begins; nothing can be changed of the files of the stuck *)
Begin(f, map, stuck, hurt) ==
  LET s == Settled(f)
      m == With(map, f.hid)
  IN [f EXCEPT !.saving = TRUE, !.cur = m, !.curEp = f.ep, !.hurt = hurt,
               !.may = [d \in DOMAIN s |-> s[d] \cup (IF d \in stuck THEN {} ELSE {<<f.ep[d], At(m, d)>>})]]
Fails(f, d) == [f EXCEPT !.hurt = @ \cup {d}]
(* what is stuck no longer may be saved after all *)
Healed(f) == [f EXCEPT !.may = [d \in DOMAIN f.may |->
  IF f.saving /\ f.ep[d] = f.curEp[d] THEN f.may[d] \cup {<<f.ep[d], At(f.cur, d)>>} ELSE f.may[d]]]

Content(f, d) == {x[2] : x \in f.may[d]}
(* removed in this life, and not made again: that it came back is another matter *)
Back(f, d) == f.ep[d] > 0 /\ Content(f, d) = {None}

(* R is what a start would find *)
KeepsAll(f, R) == \A d \in DOMAIN f.may : At(R, d) \in Content(f, d) \/ Back(f, d)
KeepsRemoved(f, R) == \A d \in DOMAIN f.may :
  /\ Content(f, d) = {None} => d \notin DOMAIN R
  /\ f.ep[d] > 0 => At(R, d) \in Content(f, d)  \* what was there before, or what was made after

(* a database that was seen on disk is not missing later because of what came before it *)
Seen(f, R) == [f EXCEPT !.may = [d \in DOMAIN f.may |->
  LET E == {x[1] : x \in {y \in f.may[d] : y[2] = At(R, d)}}
      first == CHOOSE x \in E : \A y \in E : x <= y
  IN IF d \notin DOMAIN R \/ E = {} \/ {d, "meta"} \cap f.hurt # {} \/ (f.saving /\ d \notin DOMAIN f.cur) THEN f.may[d]
     ELSE {x \in f.may[d] : x[2] # None \/ x[1] > first}]]
=============================================================================

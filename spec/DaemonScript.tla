---------------------------- MODULE DaemonScript ----------------------------
(* DaemonImpl, writing down what happens: behaviours of it, and what its variants get wrong, are replayed into the daemon *)
EXTENDS DaemonImpl, Json
CONSTANTS Depth
VARIABLE script
Did(e) == script' = Append(script, e)
InitS == Init /\ script = <<>>
NextS ==
  \/ \E c \in Clients :
       \/ Start(c) /\ Did(<<"Start", c, req'[c].op, req'[c].db>>)
       \/ Cached(c) /\ Did(<<"Cached", c>>)
       \/ Lock(c) /\ Did(<<"Lock", c>>)
       \/ Invalidate(c) /\ Did(<<"Invalidate", c>>)
       \/ (Change(c) \/ ReadDb(c)) /\ UNCHANGED script
       \/ Unlink(c) /\ Did(<<"Unlink", c>>)
       \/ UnlinkFails(c) /\ Did(<<"UnlinkFails", c, req[c].db>>)
       \/ Remember(c) /\ Did(<<"Remember", c>>)
       \/ Reply(c) /\ Did(<<"Reply", c>>)
  \/ Take /\ Did(<<"Take">>)
  \/ (Pick \/ End) /\ UNCHANGED script
  \/ Rename /\ Did(<<"Rename", sv.file>>)
  \/ FileFails /\ Did(<<"FileFails", sv.file>>)
  \/ Stop /\ Did(<<"Stop">>)
  \/ Drained /\ UNCHANGED script
SpecS == InitS /\ [][NextS]_<<vars, script>>
Good == Answers /\ NothingLost /\ NothingBack /\ Stopped
Wanting == Good \/ (PrintT(<<"SCRIPT", ToJson(script)>>) /\ FALSE)
(* a behaviour is written down when it is long enough, or over *)
Told == (TLCGet("level") = Depth \/ (TLCGet("level") < Depth /\ phase = "done")) => PrintT(<<"SCRIPT", ToJson(script)>>)
(* nothing is saved *)
Quiet == sv.pc = "sleep" /\ phase = "run"
Near == TLCGet("level") < Depth
=============================================================================

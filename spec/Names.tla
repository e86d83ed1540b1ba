------------------------------- MODULE Names -------------------------------
(* Names of databases, as sequences of code points. *)
EXTENDS Integers, Sequences
(* the list of databases is kept under this name *)
Reserved == <<109, 101, 116, 97>>
(* 255 is the longest name of a file; at most 8 characters are added to the name of a database, and at least 4 *)
ValidName(cp) ==
  /\ cp # Reserved
  /\ \A i \in 1..Len(cp) : cp[i] < 128 /\ cp[i] # 0 /\ cp[i] # 47
  /\ Len(cp) <= 247
(* whether a name between these lengths is accepted depends on how its files are called *)
Open(cp) == Len(cp) \in 248..251
=============================================================================

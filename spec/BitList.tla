------------------------------- MODULE BitList -------------------------------
(***************************************************************************)
(* A bit list as a state machine: the state is the list of bits, and each  *)
(* operation gives the next list and what the caller is told.              *)
(***************************************************************************)
EXTENDS Text

Bytes2Bits(b) == [i \in 1..(8 * Len(b)) |-> BitAt(b, 1, i - 1)]
\* <<next, answer>>
Apply(s, op, arg) ==
  CASE op = "push" -> <<Append(s, arg), <<>>>>
    [] op = "pop" -> IF s = <<>> THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, Len(s) - 1), <<s[Len(s)]>>>>
    [] op = "many" -> <<s \o arg, <<>>>>
    [] op = "new" -> <<Append(s, arg), <<Append(s, arg), s>>>>
    [] op = "clear" -> <<<<>>, <<>>>>
    [] op = "from" -> <<Bytes2Bits(arg), <<>>>>
    [] op = "join" -> <<s \o arg \o s, <<>>>>
    [] op = "arr" -> <<arg, <<>>>>
    [] op = "re" -> <<s, <<TRUE, TRUE, 1>>>> \* written and read back, one byte of something else left over

View(s) == [len |-> Len(s), empty |-> s = <<>>, idx |-> s, it |-> s, disp |-> s, ser |-> EncBits(s), proper |-> PackBits(s), eq |-> TRUE, heq |-> TRUE]

(******************* the machine, for exhaustive exploration ****************)
CONSTANTS MaxLen
VARIABLES bits, last
Bit == {0, 1}
Ops == ({"push", "new"} \X Bit)
       \cup ({"pop", "clear"} \X {0})
       \cup ({"many", "join"} \X {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 1, 1>>, <<1, 0, 0, 0, 0, 0, 0, 0, 1>>})
       \cup ({"arr"} \X {<<>>, <<1>>, <<0, 1, 0, 0, 1, 0, 1, 1>>, <<1, 1, 1, 1, 1, 1, 1, 1, 1>>})
       \cup ({"from"} \X {<<>>, <<0>>, <<165>>, <<1, 128>>})
       \cup ({"re"} \X {0, 255, 170})
Init == bits = <<>> /\ last = <<>>
Next == \E o \in Ops : LET r == Apply(bits, o[1], o[2])
                       IN /\ Len(r[1]) <= MaxLen
                          /\ bits' = r[1]
                          /\ last' = [op |-> o[1], arg |-> o[2], ret |-> r[2], view |-> View(r[1])]
Spec == Init /\ [][Next]_<<bits, last>>

\* properties of the model
IsList == \A i \in 1..Len(bits) : bits[i] \in Bit
WrittenBack == LET r == DecBits(EncBits(bits), 1) IN r.ok /\ r.v = bits /\ r.p = Len(EncBits(bits)) + 1
\* pushes only ever extend, a pop takes off the end
Extends == [][last'.op \in {"push", "many", "join", "new"} => SubSeq(bits', 1, Len(bits)) = bits]_<<bits, last>>
=============================================================================

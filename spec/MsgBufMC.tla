------------------------------ MODULE MsgBufMC ------------------------------
(* The small configurations of MsgBuf: every transition is printed and      *)
(* replayed in the real classes; Sizes are lengths of name and text around  *)
(* the inline capacity.                                                     *)
EXTENDS MsgBuf, TLC, Json
CONSTANTS Slots, Sizes, Ids, Depth, Mode
SmallSizes == {<<0, 0>>, <<4, 7>>, <<3, 700>>}
FewSizes == {<<0, 9>>, <<9, 0>>, <<5, 5>>, <<12, 250>>, <<3, 700>>}
AllSizes == {0, 1, 5, 12, 40} \X {0, 1, 9, 100, 209, 210, 211, 244, 245, 246, 249, 250, 251, 300, 700, 5000}
VARIABLES msg, op, hist
vars == <<msg, op, hist>>
Ops == [op : {"make", "amake"}, b : Slots, c : {""}, sz : Sizes, id : Ids]
  \cup [op : {"def", "adef", "del"}, b : Slots, c : {""}, sz : {<<0, 0>>}, id : {0}]
  \cup [op : {"copy", "mov", "asg", "masg", "amov", "amasg"}, b : Slots, c : Slots, sz : {<<0, 0>>}, id : {0}]
Init == msg = [b \in Slots |-> None] /\ op = [op |-> "init"] /\ hist = <<>>
Do(o) == /\ Enabled(msg, o) /\ msg' = Apply(msg, o, [sz |-> o.sz, id |-> o.id]) /\ op' = o
         /\ hist' = IF Mode = "sim" THEN Append(hist, o) ELSE hist
Next == \E o \in Ops : Do(o)
SimNext == \/ \E b \in Slots, id \in Ids, sz \in Sizes, k \in {"make", "amake"} : Do([op |-> k, b |-> b, c |-> "", sz |-> sz, id |-> id])
           \/ \E b \in Slots, c \in Slots, k \in {"copy", "mov", "asg", "masg", "amov", "amasg"}, r \in 1..8 : Do([op |-> k, b |-> b, c |-> c, sz |-> <<0, 0>>, id |-> 0])
           \/ \E b \in Slots, k \in {"def", "adef", "del"} : Do([op |-> k, b |-> b, c |-> "", sz |-> <<0, 0>>, id |-> 0])
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
\* copies are independent: an operation changes the slot it names, and leaves at most the moved one unspecified
Independent == [][\A b \in Slots : msg'[b] # msg[b] =>
                    b = op'.b \/ (b = op'.c /\ op'.op \in {"mov", "masg", "amov", "amasg"} /\ msg'[b].val = msg[b].val)]_vars
View == msg
Emit == Mode # "graph" \/ PrintT(<<"TR", ToJson(msg), ToJson(op'), ToJson(msg')>>)
EmitSim == Mode # "sim" \/ Len(hist) < Depth \/ PrintT(<<"SIM", ToJson(hist)>>)
=============================================================================

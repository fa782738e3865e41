----------------------------- MODULE MsgBufTrace -----------------------------
(* Recorded runs of log_msg_buf and async_msg against MsgBuf.               *)
EXTENDS MsgBuf, TraceLib
VARIABLES tr, i, msg
vars == <<tr, i, msg>>
T == Traces[tr]
E == T.ev[i]
Slots == {"a", "b", "c"}
Init == tr \in DOMAIN Traces /\ i = 1 /\ msg = [b \in Slots |-> None]
Given == [nm |-> E.nm, txt |-> E.txt, lv |-> E.lv, file |-> E.file, line |-> E.line, fn |-> E.fn, us |-> E.us, tid |-> E.tid]
Same(s, x) == CASE x.kind = "none" -> s.nm = "none" [] ~x.known -> TRUE [] OTHER -> s = x.val
Next == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
        /\ \/ /\ E.e = "op" /\ Enabled(msg, E)
              /\ msg' = Apply(msg, E, Given)
              /\ \A b \in Slots : Same(E.st[b], msg'[b])
           \/ E.e = "end" /\ UNCHANGED msg
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

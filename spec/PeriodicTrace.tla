----------------------------- MODULE PeriodicTrace -----------------------------
EXTENDS Periodic, TraceLib
VARIABLES tr, i
vars == <<tr, i, task, fl, round, reg, sinks, open>>
T == Traces[tr]
E == T.ev[i]
Init == tr \in DOMAIN Traces /\ i = 1 /\ PInit
Is(e) == E.e = e
P(p) == <<"task", p>>
Step == i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr /\ ("at" \in DOMAIN E => Punctual(E.at))
CallE == Is("call") /\ CASE E.op = "new" -> New(E.t, P(E.p), E.iv, E.at)
                         [] E.op = "del" -> Del(E.t, P(E.p), E.at)
                         [] E.op = "every" -> Every(E.t, E.iv, E.at)
                         [] E.op = "close" -> Close(E.t, E.at)
                         [] OTHER -> RegCall(E.t, E.op, E.p, E.at)
Next == \/ /\ Step
           /\ \/ CallE
              \/ Is("ret") /\ Ret(E.t, E.at)
              \/ Is("run") /\ Run(P(E.p), E.at)
              \/ Is("done") /\ Done(P(E.p), E.at)
              \/ Is("sf") /\ Flush(E.s, E.at)
              \/ Is("sfd") /\ Flushed(E.s, E.at)
              \/ Is("logger") /\ sinks' = Put(sinks, E.p, E.ss) /\ UNCHANGED <<task, fl, round, reg, open>>
              \/ Is("over") /\ open = Nothing /\ UNCHANGED pvars
              \/ E.e \in {"tend", "end"} /\ UNCHANGED pvars
        \/ /\ i <= Len(T.ev) /\ UNCHANGED <<tr, i>>
           /\ \/ (Is("sf") \/ Is("ret")) /\ \E t \in DOMAIN open : Effect(t)
              \/ "at" \in DOMAIN E /\ \E p \in Flushing : Silent(p, E.at)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

--------------------------- MODULE BlockQueueTrace ---------------------------
(* Recorded concurrent histories of block_queue (calls and returns only)    *)
(* against BlockQueue: TLC searches the instants at which the operations    *)
(* took effect (as late as possible: right before some operation returns).  *)
EXTENDS BlockQueue, TraceLib
VARIABLES tr, i
vars == <<tr, i, cap, q, over, disc, pend>>
T == Traces[tr]
E == T.ev[i]
Init == tr \in DOMAIN Traces /\ i = 1 /\ QInit(Traces[tr].cfg.cap)
Step == i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
Next == \/ /\ Step /\ E.e = "call" /\ Call(E.t, E.op, E.v, E.tm + E.d)
        \/ /\ Step /\ E.e = "ret" /\ Ret(E.t, E.ok, E.r)
           /\ ~E.ok => E.tm >= pend[E.t].due
        \/ /\ Step /\ E.e = "settled" /\ NobodyForgotten(E.tm, 2000) /\ UNCHANGED qvars
        \/ /\ Step /\ E.e = "tend" /\ UNCHANGED qvars
        \/ /\ Step /\ E.e = "end" /\ DOMAIN pend = {} /\ UNCHANGED qvars
        \/ /\ i <= Len(T.ev) /\ E.e \in {"ret", "settled"} /\ UNCHANGED <<tr, i>>
           /\ \E t \in DOMAIN pend : Effect(t, E.tm)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

------------------------------ MODULE ConsoleTrace ------------------------------
(* Recorded runs of console sinks against Console: after every call the new    *)
(* bytes on both streams.                                                      *)
EXTENDS Console, TraceLib
VARIABLES tr, i, env, st
vars == <<tr, i, env, st>>
T == Traces[tr]
E == T.ev[i]
EscOf == Traces[1].ev[1].esc
Init == tr \in DOMAIN Traces /\ i = 1 /\ st = Initial /\ env = [term |-> "-", cterm |-> "-", out |-> FALSE, err |-> FALSE]
EnvE == E.e = "env" /\ env' = [term |-> E.term, cterm |-> E.cterm, out |-> E.out, err |-> E.err] /\ UNCHANGED st
OpE == /\ E.e = "op" /\ E.err = ""
       /\ LET e == Effect(st, E) IN
            /\ Shows(e, "out", E.out) /\ Shows(e, "err", E.er)
            /\ st' = After(env, [st EXCEPT !.pend = [out |-> Left(e, "out", E.out), err |-> Left(e, "err", E.er)]], E)
       /\ UNCHANGED env
EndE == E.e = "end" /\ UNCHANGED <<env, st>>
Next == i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr /\ (EnvE \/ OpE \/ EndE)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

------------------------------ MODULE RegistryLin ------------------------------
(* Recorded overlapping calls of the registry's functions: there is a choice   *)
(* of one instant per call, between its call and its return, such that they    *)
(* return and leave what they would one at a time (C11, C12, C13).             *)
(* A creation that does not get its name is reported on stderr: `owed` is the  *)
(* number of such creations less that of the reports.                          *)
EXTENDS Registry, TraceLib
VARIABLES tr, i, st, open, res, owed
vars == <<tr, i, st, open, res, owed>>
T == Traces[tr]
E == T.ev[i]
Init == /\ tr \in DOMAIN Traces /\ i = 1 /\ st = Initial /\ open = Nothing /\ res = Nothing /\ owed = 0
Is(e) == E.e = e
Setup == {"sink", "new", "rstart"}
Queries == {"get", "getdef", "exec", "alive"}
Alive(d) == {h \in DOMAIN d.lg : d.lg[h].as /\ d.lg[h].pool # 0 /\ d.pools[d.lg[h].pool].up}
ValOf(o, d) == CASE o.op = "get" -> (IF Known(d.st, o.nm) THEN d.st.reg.map[o.nm] ELSE "")
                [] o.op = "getdef" -> d.st.reg.def
                [] OTHER -> ""
Result(o, d) == [err |-> d.eff # <<>> /\ o.op # "rcreate", val |-> ValOf(o, d),
                 all |-> CASE o.op = "exec" -> d.st.reg.map [] o.op = "alive" -> [h \in Alive(d.st) |-> h] [] OTHER -> Nothing]
Effect(o) == IF o.op \in Queries THEN Only(st) ELSE IF o.op = "rpool" /\ o.w \notin 1..1024 THEN Err(st, "") ELSE RDo(st, o)
\* creating an asynchronous logger is two steps, as others see it: a pool of its kind is installed if there is none, then the
\* logger is created, with the pool that is registered at that moment
RegPool == IF st.reg.pool = 0 THEN [ty |-> "", q |-> 8192, w |-> 1] ELSE st.pools[st.reg.pool]
NeedsPool(o) == o.op = "rcreate" /\ o.kind # "sync" /\ o.kind # RegPool.ty
Install == /\ i <= Len(T.ev) /\ Is("ret")
           /\ \E t \in DOMAIN open : /\ NeedsPool(open[t]) /\ "installed" \notin DOMAIN open[t]
                                     /\ st' = Replace(st, [ty |-> open[t].kind, q |-> RegPool.q, w |-> RegPool.w])
                                     /\ open' = [open EXCEPT ![t] = Put(@, "installed", TRUE)]
           /\ UNCHANGED <<tr, i, res, owed>>
\* a call takes effect; only right before a return, in any order of those still open
Lin == /\ i <= Len(T.ev) /\ Is("ret")
       /\ \E t \in DOMAIN open : ~NeedsPool(open[t]) /\
            LET d == Effect(open[t]) IN /\ st' = d.st /\ res' = Put(res, t, Result(open[t], d)) /\ open' = Rem(open, t)
            /\ owed' = IF open[t].op = "rcreate" THEN owed + Len(d.eff) ELSE owed
       /\ UNCHANGED <<tr, i>>
CallE == /\ Is("call")
         /\ IF E.op \in Setup THEN st' = (IF E.op = "rstart" THEN RDo(st, E) ELSE Do(st, E)).st /\ UNCHANGED open
            ELSE open' = Put(open, E.t, E) /\ UNCHANGED st
         /\ UNCHANGED <<res, owed>>
Is0 == "obs" \in DOMAIN E
ObsOk == /\ E.obs.lg = Obs(st).lg
         /\ LET r == RegObs(st, DOMAIN E.obs.reg.get) IN
            /\ E.obs.reg.get = r.get /\ E.obs.reg.def = r.def /\ E.obs.reg.pool = r.pool
            /\ Len(E.obs.reg.all) = r.count /\ SeqSet(E.obs.reg.all) = r.all
RetE == /\ Is("ret") /\ E.t \notin DOMAIN open
        /\ E.t \in DOMAIN res =>
             /\ (E.err # "") = res[E.t].err /\ E.val = res[E.t].val
             /\ Len(E.all) = Cardinality(DOMAIN res[E.t].all) /\ SeqSet(E.all) = Range(res[E.t].all)
        /\ Is0 => ObsOk
        /\ res' = Rem(res, E.t) /\ UNCHANGED <<st, open, owed>>
ReportE == Is("report") /\ Contains(E.txt, "already exists") /\ owed' = owed - 1 /\ UNCHANGED <<st, open, res>>
OtherE == (Is("tend") \/ (Is("end") /\ open = Nothing /\ owed = 0)) /\ UNCHANGED <<st, open, res, owed>>
Next == \/ /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr /\ (CallE \/ RetE \/ ReportE \/ OtherE)
        \/ Install \/ Lin
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

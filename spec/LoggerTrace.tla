------------------------------ MODULE LoggerTrace ------------------------------
(* Recorded runs of loggers against Logger. Every thread has the effects its   *)
(* current call still owes; reports are matched by text and number.            *)
EXTENDS Registry, TraceLib
VARIABLES tr, i, st, todo, pend, nums
vars == <<tr, i, st, todo, pend, nums>>
T == Traces[tr]
E == T.ev[i]
Init == /\ tr \in DOMAIN Traces /\ i = 1 /\ st = Initial /\ todo = Nothing /\ pend = <<>> /\ nums = {}

Is(e) == E.e = e
\* the effects before the next visible one: reports become pending
RECURSIVE LeadingReports(_)
LeadingReports(es) == IF es = <<>> \/ Head(es).k # "report" THEN 0 ELSE 1 + LeadingReports(Tail(es))
Owe(t, es) ==
  LET n == LeadingReports(es) IN
  /\ todo' = Put(todo, t, SubSeq(es, n + 1, Len(es)))
  /\ pend' = pend \o [k \in 1..n |-> [t |-> t, txt |-> es[k].txt]]

CallE == /\ Is("call")
         /\ \E d \in Results(st, E) : st' = d.st /\ Owe(E.t, (IF E.t \in DOMAIN todo THEN todo[E.t] ELSE <<>>) \o d.eff)
         /\ UNCHANGED nums
\* the effects of an asynchronous logger's call come from its worker, those of the others from the caller
From == IF E.w THEN {t \in DOMAIN todo : todo[t] # <<>>} ELSE {E.t}
Matches(x) ==
  \/ E.e = "out" /\ x.k = "out" /\ x.s = E.s
     /\ IF x.m.txt \in {StartMark, EndMark}
        THEN [x.m EXCEPT !.txt = ""] = [E.m EXCEPT !.txt = ""] /\ Contains(E.m.txt, IF x.m.txt = StartMark THEN "Backtrace Start" ELSE "Backtrace End")
        ELSE x.m = E.m
  \/ E.e = "txt" /\ x.k = "txt" /\ x.s = E.s /\ x.txt = E.txt /\ x.cs = E.cs /\ x.ce = E.ce
  \/ E.e = "sflush" /\ x.k = "flush" /\ x.s = E.s
EffectE == /\ E.e \in {"out", "txt", "sflush"}
           /\ \E t \in From : /\ t \in DOMAIN todo /\ todo[t] # <<>>
                              /\ Matches(Head(todo[t]))
                              /\ Owe(t, Tail(todo[t]))
           /\ UNCHANGED <<st, nums>>
ReportE == /\ Is("report")
           /\ E.n \notin nums /\ E.n >= 1
           /\ nums' = nums \cup {E.n}
           /\ T.cfg.seq => E.n = Cardinality(nums) + 1
           /\ \E k \in DOMAIN pend : Contains(E.txt, pend[k].txt) /\ pend' = Drop1(pend, k)
           /\ UNCHANGED <<st, todo>>
RegObsOk == LET r == RegObs(st, DOMAIN E.obs.reg.get) IN
            /\ E.obs.reg.get = r.get /\ E.obs.reg.def = r.def /\ E.obs.reg.pool = r.pool
            /\ Len(E.obs.reg.all) = r.count /\ SeqSet(E.obs.reg.all) = r.all
\* a call that does not wait for what it sets off says so (nw)
RetE == /\ Is("ret")
        /\ E.nw \/ (todo[E.t] = <<>> /\ \A k \in DOMAIN pend : pend[k].t # E.t)
        /\ E.t = 0 => E.obs.lg = Obs(st).lg /\ E.obs.sl = Obs(st).sl /\ (T.cfg.reg => RegObsOk)
        /\ UNCHANGED <<st, todo, pend, nums>>
OtherE == /\ \/ Is("tend")
             \/ Is("end") /\ pend = <<>> /\ nums = 1..Cardinality(nums) /\ \A t \in DOMAIN todo : todo[t] = <<>>
          /\ UNCHANGED <<st, todo, pend, nums>>
Next == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
        /\ (CallE \/ EffectE \/ ReportE \/ RetE \/ OtherE)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

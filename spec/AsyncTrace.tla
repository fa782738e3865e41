----------------------------- MODULE AsyncTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of the real pools and async loggers against  *)
(* AsyncAbs. Every event of a trace must be an action of the contract.     *)
(***************************************************************************)
EXTENDS AsyncAbs, Integers, TraceLib

VARIABLES tr, i, pend, nums, ff
vars == <<tr, i, pend, nums, ff, pool, unit, wk, closed>>

T   == Traces[tr]
Cfg == T.cfg
E   == T.ev[i]
Is(n) == i <= Len(T.ev) /\ E.e = n

Init == /\ tr \in DOMAIN Traces /\ i = 1
        /\ AInit(SeqSet(Traces[tr].cfg.gated))
        /\ pend = Empty /\ nums = {}
        /\ ff = [s \in DOMAIN Traces[tr].cfg.failflush |-> Traces[tr].cfg.failflush[s]]

Lg(l)   == Cfg.loggers[l]
SinkLv(s) == Cfg.sinks[s]
Outs(l, lv) == [k \in 1..Len(SelectSeq(Lg(l).sinks, LAMBDA s : SinkLv(s) <= lv)) |->
                   <<"out", SelectSeq(Lg(l).sinks, LAMBDA s : SinkLv(s) <= lv)[k]>>]
Flushes(l) == [k \in 1..Len(Lg(l).sinks) |-> <<"fl", Lg(l).sinks[k]>>]
LogSteps(l, lv) == Outs(l, lv) \o IF lv >= Lg(l).flush /\ lv # 6 THEN Flushes(l) ELSE <<>>
Passes(l, lv) == lv >= Lg(l).level

AddPend(x) == Upd(pend, x, IF x \in DOMAIN pend THEN pend[x] + 1 ELSE 1)
Keep == UNCHANGED <<tr, pend, nums, ff>>
Skip == Keep /\ UNCHANGED avars

Ty(s) == CASE s = "lock" -> LOCK [] s = "free" -> FREE [] OTHER -> CONC

NewPoolE == Is("newpool") /\ LET C == Cfg.pools[E.p] IN NewPool(E.p, Ty(C.ty), C.q, C.w, C.ctor) /\ Keep
NewPoolRetE ==
  /\ Is("newpoolret") /\ NewPoolRet(E.p, E.ok)
  /\ E.ok => E.q = pool[E.p].q /\ E.w = pool[E.p].w /\ E.ty = pool[E.p].ty
  /\ Keep
StartE == Is("wstart") /\ WorkerStart(E.p, E.t) /\ Keep
StopE  == Is("wstop") /\ WorkerStop(E.p, E.t) /\ Keep
LogE   == /\ Is("log")
          /\ IF Passes(E.l, E.lv) THEN Call(i, Lg(E.l).pool, E.t, "log", LogSteps(E.l, E.lv)) ELSE UNCHANGED avars
          /\ Keep
FlushE == /\ Is("flush")
          /\ Call(i, Lg(E.l).pool, E.t, "flush", Flushes(E.l))
          /\ Keep
\* position of the call event of the unit with number u (units carry their number in the text)
CallAt(u) == CHOOSE k \in 1..i : T.ev[k].e \in {"log", "flush"} /\ T.ev[k].u = u
LogRetE == /\ Is("logret")
           /\ LET c == CallAt(E.u) IN
                IF Passes(T.ev[c].l, T.ev[c].lv) THEN Ret(c) ELSE UNCHANGED avars
           /\ Keep
FlushRetE == Is("flushret") /\ Ret(CallAt(E.u)) /\ Keep
OutE == /\ Is("out")
        /\ \E c \in DOMAIN unit :
             /\ T.ev[c].e = "log" /\ T.ev[c].u = E.u
             /\ Work(E.t, c, <<"out", E.s>>)
             /\ LET m == T.ev[c] IN
                  /\ E.txt = m.txt /\ E.nm = m.l /\ E.lv = m.lv /\ E.tid = m.tid
                  /\ E.line = m.line /\ E.file = m.file /\ E.fn = m.fn
                  /\ IF m.xt THEN E.tm = m.tm0
                     ELSE E.tm >= m.tm0 /\ \A k \in c..i : (T.ev[k].e = "logret" /\ T.ev[k].u = m.u) => E.tm <= T.ev[k].tm1
             /\ pend' = IF <<E.u, E.s>> \in SeqSet(Cfg.failout) THEN AddPend("out " \o E.s \o " " \o ToString(E.u)) ELSE pend
        /\ UNCHANGED <<tr, nums, ff>>
SFlushE == /\ Is("sflush")
           /\ \E c \in DOMAIN unit : Work(E.t, c, <<"fl", E.s>>)
           /\ IF E.s \in DOMAIN ff /\ ff[E.s] > 0
              THEN ff' = [ff EXCEPT ![E.s] = @ - 1] /\ pend' = AddPend("flush " \o E.s)
              ELSE UNCHANGED <<ff, pend>>
           /\ UNCHANGED <<tr, nums>>
\* a report on stderr: of a failing sink, or of a call whose pool is gone
ReportE ==
  /\ Is("report")
  /\ E.n >= 1 /\ E.n \notin nums
  /\ nums' = nums \cup {E.n}
  /\ \/ \E x \in DOMAIN pend : /\ pend[x] > 0 /\ Contains(E.txt, x)
                               /\ pend' = [pend EXCEPT ![x] = @ - 1]
                               /\ UNCHANGED avars
     \/ /\ \A x \in DOMAIN pend : ~Contains(E.txt, x)
        /\ E.txt # ""
        /\ \E c \in DOMAIN unit : Reject(c)
        /\ UNCHANGED pend
  /\ UNCHANGED <<tr, ff>>
DropE == Is("drop") /\ Drop(E.p) /\ Keep
DropRetE == Is("dropret") /\ DropRet(E.p) /\ Keep
OpenE == Is("open") /\ Open(E.s) /\ Keep
SettledE == Is("settled") /\ Quiet /\ Skip
TendE == Is("tend") /\ Skip
EndE  == /\ Is("end") /\ AllDone
         /\ \A x \in DOMAIN pend : pend[x] = 0
         /\ nums = 1..Cardinality(nums)
         /\ Skip

Next == /\ i <= Len(T.ev)
        /\ i' = i + 1
        /\ \/ NewPoolE \/ NewPoolRetE \/ StartE \/ StopE \/ LogE \/ FlushE \/ LogRetE \/ FlushRetE \/ OutE
           \/ SFlushE \/ ReportE \/ DropE \/ DropRetE \/ OpenE \/ SettledE \/ TendE \/ EndE
        /\ BoundedQueue'

Progress == Mark(tr, i, Len(T.ev))
Spec == Init /\ [][Next]_vars
Inv == TypeOK
=============================================================================

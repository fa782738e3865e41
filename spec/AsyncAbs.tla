------------------------------ MODULE AsyncAbs ------------------------------
(***************************************************************************)
(* The contract of asynchronous logging (properties C01-C05, C10).         *)
(*                                                                         *)
(* A thread pool p has a kind (lock, lockfree, lockfree_concurrent), a     *)
(* queue size q and w workers. A call (log or flush) of a thread becomes a *)
(* unit: the list of steps - <<"out",s>> write to sink s, <<"fl",s>> flush *)
(* sink s - that exactly one worker of p has to perform, in order. The     *)
(* unit may not start before the units in its `pred` are done.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  pool,     \* pool name -> record
  unit,     \* id -> record; only the units that are not finished yet
  wk,       \* worker thread -> [p, u, at]: unit it works on, sink it is in
  closed    \* the sinks whose gate is closed: a worker in one of them stays there

avars == <<pool, unit, wk, closed>>

LOCK == 0   FREE == 1   CONC == 2      \* pool kinds

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K)    == [x \in DOMAIN f \ K |-> f[x]]
Empty        == [x \in {} |-> 0]

AInit(gates) == pool = Empty /\ unit = Empty /\ wk = Empty /\ closed = gates

(***************************************************************************)
(* Which unfinished units a new unit of thread th on pool p has to wait    *)
(* for. `ret` says that the call has returned.                             *)
(***************************************************************************)
MustPrecede(p, th) ==
  LET P == pool[p] IN
  {v \in DOMAIN unit : /\ unit[v].p = p /\ unit[v].ret /\ unit[v].rem # <<>>
                       /\ CASE P.ty = CONC -> unit[v].th = th
                            [] P.ty = FREE -> P.w = 1 /\ unit[v].th = th
                            [] OTHER       -> P.w = 1 }

(***************************************************************************)
(* Pool life cycle                                                         *)
(***************************************************************************)
NewPool(p, ty, q, w, ctor) ==
  /\ p \notin DOMAIN pool
  /\ pool' = Upd(pool, p, [st |-> "making", ty |-> ty, q |-> q, w |-> w, ctor |-> ctor,
                           started |-> {}, stopped |-> {}, hidden |-> FALSE])
  /\ UNCHANGED <<unit, wk, closed>>

NewPoolRet(p, ok) ==
  /\ pool[p].st = "making"
  /\ ok = (pool[p].w \in 1..1024)
  /\ ~ok => pool[p].started = {}
  /\ pool' = [pool EXCEPT ![p].st = IF ok THEN "alive" ELSE "none"]
  /\ UNCHANGED <<unit, wk, closed>>

WorkerStart(p, t) ==
  /\ pool[p].st \notin {"none", "dead"}
  /\ pool[p].ctor \in {0, 1}
  /\ t \notin DOMAIN wk
  /\ Cardinality(pool[p].started) < pool[p].w
  /\ pool' = [pool EXCEPT ![p].started = @ \cup {t}]
  /\ wk' = Upd(wk, t, [p |-> p, u |-> 0, at |-> "", k |-> 0])
  /\ UNCHANGED <<unit, closed>>

Busy(t) == wk[t].u \in DOMAIN unit /\ unit[wk[t].u].rem # <<>>

WorkerStop(p, t) ==
  /\ pool[p].ctor = 0
  /\ pool[p].st \in {"dropping", "dropped"}
  /\ t \in pool[p].started \ pool[p].stopped
  /\ ~Busy(t)
  /\ pool' = [pool EXCEPT ![p].stopped = @ \cup {t}]
  /\ UNCHANGED <<unit, wk, closed>>

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
Call(u, p, th, kind, steps) ==
  /\ u \notin DOMAIN unit
  /\ unit' = Upd(unit, u, [p |-> p, th |-> th, kind |-> kind, rem |-> steps, w |-> -1, ret |-> FALSE, rej |-> FALSE,
                           late |-> pool[p].st = "dead", pred |-> MustPrecede(p, th)])
  /\ pool' = [pool EXCEPT ![p].hidden = @ \/ (steps = <<>>)]
  /\ UNCHANGED <<wk, closed>>

\* the pool is gone (or going): the call is refused, which is reported as one error
Reject(u) ==
  /\ u \in DOMAIN unit
  /\ LET U == unit[u] IN /\ pool[U.p].st \in {"dropping", "dropped", "dead"}
                         /\ U.w = -1 /\ ~U.ret /\ ~U.rej
  /\ unit' = [unit EXCEPT ![u].rej = TRUE]
  /\ UNCHANGED <<pool, wk, closed>>

InFlight(un, p) == {v \in DOMAIN un : un[v].p = p /\ ~un[v].ret}

\* the pool is certainly destroyed: everything is written and every worker has stopped
Drained(un, p) ==
  /\ \A v \in DOMAIN un : un[v].p # p
  /\ pool[p].ctor = 0 => pool[p].started = pool[p].stopped
  /\ pool[p].ctor \in {0, 1} => Cardinality(pool[p].started) = pool[p].w

MaybeDead(un, p) ==
  IF pool[p].st = "dropped" /\ InFlight(un, p) = {}
  THEN Drained(un, p) /\ pool' = [pool EXCEPT ![p].st = "dead"]
  ELSE UNCHANGED pool

Ret(u) ==
  /\ u \in DOMAIN unit
  /\ LET U == unit[u]
         fin == U.rem = <<>> /\ (U.pred = {} \/ U.kind = "log")
         un == IF U.rej \/ fin THEN Del(unit, {u}) ELSE [unit EXCEPT ![u].ret = TRUE]
     IN /\ ~U.ret
        /\ U.late => U.rej
        /\ (~U.rej /\ U.kind = "flush") => fin
        /\ unit' = un
        /\ MaybeDead(un, U.p)
  /\ UNCHANGED <<wk, closed>>

Drop(p) ==
  /\ pool[p].st = "alive"
  /\ pool' = [pool EXCEPT ![p].st = "dropping"]
  /\ UNCHANGED <<unit, wk, closed>>

DropRet(p) ==
  /\ pool[p].st = "dropping"
  /\ LET dead == InFlight(unit, p) = {} IN
       /\ dead => Drained(unit, p)
       /\ pool' = [pool EXCEPT ![p].st = IF dead THEN "dead" ELSE "dropped"]
  /\ UNCHANGED <<unit, wk, closed>>

(***************************************************************************)
(* Worker t performs the next step of unit u                               *)
(***************************************************************************)
IsWorker(p, t) ==
  IF pool[p].ctor \in {0, 1} THEN t \in pool[p].started \ pool[p].stopped
  ELSE \/ t \in DOMAIN wk /\ wk[t].p = p
       \/ t \notin DOMAIN wk /\ Cardinality({x \in DOMAIN wk : wk[x].p = p}) < pool[p].w

Work(t, u, step) ==
  /\ u \in DOMAIN unit
  /\ LET U == unit[u] IN
     /\ U.rem # <<>> /\ Head(U.rem) = step
     /\ ~U.rej /\ ~U.late
     /\ pool[U.p].st \in {"alive", "dropping", "dropped"}
     /\ IsWorker(U.p, t)
     /\ IF U.w = -1 THEN U.pred = {} /\ (t \in DOMAIN wk => ~Busy(t)) ELSE U.w = t
     /\ LET rest == Tail(U.rem)
            un1 == [unit EXCEPT ![u].rem = rest, ![u].w = t]
            un2 == IF rest # <<>> THEN un1
                   ELSE [v \in DOMAIN unit |-> [un1[v] EXCEPT !.pred = @ \ {u}]]
        IN unit' = IF rest = <<>> /\ U.ret THEN Del(un2, {u}) ELSE un2
     /\ wk' = Upd(wk, t, [p |-> U.p, u |-> u, at |-> step[2], k |-> 0])
  /\ UNCHANGED <<pool, closed>>

Open(s) == closed' = closed \ {s} /\ UNCHANGED <<pool, unit, wk>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Workers(p)  == {t \in DOMAIN wk : wk[t].p = p}
Stuck(p)    == {t \in Workers(p) : wk[t].at \in closed}
Queued(p)   == {u \in DOMAIN unit : LET U == unit[u] IN U.p = p /\ U.ret /\ U.w = -1 /\ U.rem # <<>>}

\* C04: at most q units of a lock pool wait (a worker outside of a closed sink may just have taken one)
BoundedQueue == \A p \in DOMAIN pool : (pool[p].ty = LOCK /\ pool[p].st # "none") =>
                  Cardinality(Queued(p)) <= pool[p].q + pool[p].w - Cardinality(Stuck(p))

\* C04, when nothing can move any more: a call waits only because the queue is full
Quiet == \A p \in DOMAIN pool : (pool[p].st = "alive" /\ ~pool[p].hidden /\ pool[p].q > 0) =>
            LET waiting == {u \in InFlight(unit, p) : unit[u].kind = "log"}
                flushes == {u \in InFlight(unit, p) : unit[u].kind = "flush" /\ unit[u].w = -1}   \* in the queue or waiting
            IN
            /\ pool[p].ty = LOCK => Cardinality(Queued(p)) <= pool[p].q
            /\ waiting # {} => pool[p].ty # CONC /\ Cardinality(Queued(p) \cup flushes) >= pool[p].q
            /\ (Queued(p) # {} /\ Workers(p) # {}) => Stuck(p) # {}

AllDone == unit = Empty

TypeOK == /\ \A p \in DOMAIN pool : pool[p].stopped \subseteq pool[p].started
          /\ \A u \in DOMAIN unit : unit[u].p \in DOMAIN pool /\ unit[u].pred \subseteq (DOMAIN unit \ {u})
          /\ \A t \in DOMAIN wk : wk[t].p \in DOMAIN pool
=============================================================================

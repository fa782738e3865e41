-------------------------------- MODULE PoolImpl --------------------------------
(* The three thread pools as designed (queues, tokens, counters, shutdown, the     *)
(* weak reference of a logger), with every step of their threads shown to be a     *)
(* step of the contract AsyncAbs: an implementation step performs the contract's   *)
(* action together with its own, and `bad` becomes true if the contract does not   *)
(* allow that action now. All interleavings of queue operations are explored.      *)
EXTENDS AsyncAbs
CONSTANTS Kind,        \* LOCK, FREE or CONC
          Q, W,        \* queue size, workers
          Producers,   \* logging threads
          Calls,       \* calls of each
          Steps,       \* the units they may log: set of step sequences
          MayFlush,    \* they may also call flush()
          WaitPending  \* (lockfree) shutdown waits until every message is taken

VARIABLES bad,
          que,      \* queue name -> sequence of units (0: terminate); see Queues
          pend,     \* (lockfree) messages on their way in or in
          sema,     \* (lockfree_concurrent) producers known
          tokenOf, ntok, nidx, \* token of a producer; tokens given to producers; to workers
          refs,     \* who holds the pool
          pc, cur, left,  \* producers and the main thread 0: position, unit in hand, calls left
          wpc, wcur,      \* workers: -1 not started, -2 waits for a producer, -3 takes an index,
                      \* >= 0 serves that queue, -4 told to stop, -5 ended; unit in hand
          dtor, term      \* who destroys the pool (-1: nobody yet), terminate messages sent

ivars == <<bad, que, pend, sema, tokenOf, ntok, nidx, refs, pc, cur, left, wpc, wcur, dtor, term>>
vars == <<ivars, avars>>
P == "p"
StepsDef == {<<<<"out", "s">>>>, <<<<"out", "s">>, <<"fl", "s">>>>}
Threads == Producers \cup {0}
WorkerIds == {100 + k : k \in 1..W}
\* lock: one queue; lockfree: one per enqueuing thread; concurrent: one per token
Queues == CASE Kind = LOCK -> {1} [] Kind = FREE -> Threads [] OTHER -> 0..(W - 1)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(f[x]) + Total(f, S \ {x})
Size == Total(que, Queues)

\* the contract's action, or a violation
Abs(A) == \/ A /\ UNCHANGED bad
          \/ ~ENABLED A /\ bad' = TRUE /\ UNCHANGED avars
NoAbs == UNCHANGED <<avars, bad>>

Init == /\ bad = FALSE
        /\ pool = (P :> [st |-> "alive", ty |-> Kind, q |-> Q, w |-> W, ctor |-> 0, started |-> {}, stopped |-> {}, hidden |-> FALSE])
        /\ unit = Empty /\ wk = Empty /\ closed = {}
        /\ que = [x \in Queues |-> <<>>] /\ pend = 0 /\ sema = 0 /\ tokenOf = Empty /\ ntok = 0 /\ nidx = 0
        /\ refs = {0}
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> 0] /\ left = [t \in Producers |-> Calls]
        /\ wpc = [w \in WorkerIds |-> -1] /\ wcur = [w \in WorkerIds |-> 0]
        /\ dtor = -1 /\ term = 0

\* ------------------------------------------------------------------ logging threads
Id(t) == 10 * t + left[t]
CallLog(t) == /\ pc[t] = "idle" /\ left[t] > 0
              /\ \E s \in Steps : Abs(Call(Id(t), P, t, "log", s))
              /\ cur' = [cur EXCEPT ![t] = Id(t)] /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "get"]
              /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, wpc, wcur, dtor, term>>
CallFlush(t) == /\ MayFlush /\ pc[t] = "idle" /\ left[t] > 0
                /\ Abs(Call(Id(t), P, t, "flush", <<<<"fl", "s">>>>))
                /\ cur' = [cur EXCEPT ![t] = Id(t)] /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "get"]
                /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, wpc, wcur, dtor, term>>
\* the weak pointer
Get(t) == /\ t \in Producers /\ pc[t] = "get"
          /\ IF refs # {} THEN refs' = refs \cup {t} /\ NoAbs /\ pc' = [pc EXCEPT ![t] = IF Kind = FREE THEN "count" ELSE IF Kind = CONC THEN "token" ELSE "put"]
             ELSE Abs(Reject(cur[t])) /\ UNCHANGED refs /\ pc' = [pc EXCEPT ![t] = "ret"]
          /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, cur, left, wpc, wcur, dtor, term>>
Count(t) == /\ pc[t] = "count" /\ pend' = pend + 1 /\ pc' = [pc EXCEPT ![t] = "put"] /\ NoAbs
            /\ UNCHANGED <<que, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
Token(t) == /\ pc[t] = "token"
            /\ IF t \in DOMAIN tokenOf THEN UNCHANGED <<tokenOf, ntok, sema>>
               ELSE tokenOf' = Upd(tokenOf, t, ntok % W) /\ ntok' = ntok + 1 /\ sema' = sema + 1
            /\ pc' = [pc EXCEPT ![t] = "put"] /\ NoAbs
            /\ UNCHANGED <<que, pend, nidx, refs, cur, left, wpc, wcur, dtor, term>>
Mine(t) == CASE Kind = LOCK -> 1 [] Kind = FREE -> t [] OTHER -> tokenOf[t]
Room == CASE Kind = LOCK -> Size < Q [] Kind = FREE -> Size < Q [] OTHER -> TRUE
PutMsg(t) == /\ t \in Producers /\ pc[t] = "put" /\ Room
             /\ que' = [que EXCEPT ![Mine(t)] = Append(@, cur[t])]
             /\ pc' = [pc EXCEPT ![t] = IF unit[cur[t]].kind = "flush" THEN "future" ELSE "release"] /\ NoAbs
             /\ UNCHANGED <<pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
Future(t) == /\ pc[t] = "future" /\ unit[cur[t]].rem = <<>> /\ \A w \in WorkerIds : wcur[w] # cur[t]
             /\ pc' = [pc EXCEPT ![t] = "release"] /\ NoAbs
             /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
\* the reference is given back; the last one destroys the pool
Release(t) == /\ pc[t] = "release" /\ refs' = refs \ {t}
              /\ IF refs' = {} THEN dtor' = t /\ pc' = [pc EXCEPT ![t] = "drain"] ELSE UNCHANGED dtor /\ pc' = [pc EXCEPT ![t] = "ret"]
              /\ IF t = 0 THEN Abs(Drop(P)) ELSE NoAbs
              /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, cur, left, wpc, wcur, term>>
RetP(t) == /\ t \in Producers /\ pc[t] = "ret" /\ Abs(Ret(cur[t])) /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
DropM == /\ pc[0] = "idle" /\ pc' = [pc EXCEPT ![0] = "release"] /\ NoAbs
         /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
DropRetM == /\ pc[0] = "ret" /\ Abs(DropRet(P)) /\ pc' = [pc EXCEPT ![0] = "over"]
            /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
\* ---------------------------------------------------------------- destructor
Drain(t) == /\ pc[t] = "drain" /\ (Kind = FREE /\ WaitPending => pend = 0)
            /\ pc' = [pc EXCEPT ![t] = "term"] /\ NoAbs
            /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
Term(t) == /\ pc[t] = "term" /\ term < W /\ Room
           /\ que' = [que EXCEPT ![CASE Kind = LOCK -> 1 [] Kind = FREE -> t [] OTHER -> term] = Append(@, 0)]
           /\ pend' = IF Kind = FREE THEN pend + 1 ELSE pend
           /\ sema' = IF Kind = CONC THEN sema + 1 ELSE sema
           /\ term' = term + 1 /\ NoAbs
           /\ UNCHANGED <<tokenOf, ntok, nidx, refs, pc, cur, left, wpc, wcur, dtor>>
Join(t) == /\ pc[t] = "term" /\ term = W /\ \A w \in WorkerIds : wpc[w] = -5
           /\ pc' = [pc EXCEPT ![t] = "ret"] /\ NoAbs
           /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, cur, left, wpc, wcur, dtor, term>>
\* ------------------------------------------------------------------- workers
WStart(w) == /\ wpc[w] = -1 /\ Abs(WorkerStart(P, w)) /\ wpc' = [wpc EXCEPT ![w] = IF Kind = CONC THEN -2 ELSE 1]
             /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, pc, cur, left, wcur, dtor, term>>
\* a worker of the concurrent pool waits for a producer and takes the next token
WSema(w) == /\ wpc[w] = -2 /\ sema > 0 /\ sema' = sema - 1 /\ wpc' = [wpc EXCEPT ![w] = -3] /\ NoAbs
            /\ UNCHANGED <<que, pend, tokenOf, ntok, nidx, refs, pc, cur, left, wcur, dtor, term>>
WIndex(w) == /\ wpc[w] = -3 /\ nidx' = nidx + 1 /\ wpc' = [wpc EXCEPT ![w] = nidx] /\ NoAbs
             /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, refs, pc, cur, left, wcur, dtor, term>>
Sources(w) == CASE Kind = LOCK -> {1} [] Kind = FREE -> Queues [] OTHER -> {wpc[w]}
Serving(w) == wpc[w] \in 0..W /\ wcur[w] = 0
Take(w) == /\ Serving(w)
           /\ \E x \in Sources(w) :
                /\ que[x] # <<>> /\ que' = [que EXCEPT ![x] = Tail(@)]
                /\ IF Head(que[x]) = 0 THEN wpc' = [wpc EXCEPT ![w] = -4] /\ UNCHANGED wcur
                   ELSE wcur' = [wcur EXCEPT ![w] = Head(que[x])] /\ UNCHANGED wpc
           /\ pend' = IF Kind = FREE THEN pend - 1 ELSE pend
           /\ NoAbs /\ UNCHANGED <<sema, tokenOf, ntok, nidx, refs, pc, cur, left, dtor, term>>
DoStep(w) == /\ wcur[w] # 0 /\ wcur[w] \in DOMAIN unit /\ unit[wcur[w]].rem # <<>>
             /\ Abs(Work(w, wcur[w], Head(unit[wcur[w]].rem)))
             /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, pc, cur, left, wpc, wcur, dtor, term>>
Finished(w) == /\ wcur[w] # 0 /\ (IF wcur[w] \in DOMAIN unit THEN unit[wcur[w]].rem = <<>> ELSE TRUE)
               /\ wcur' = [wcur EXCEPT ![w] = 0] /\ NoAbs
               /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, pc, cur, left, wpc, dtor, term>>
WStop(w) == /\ wpc[w] = -4 /\ Abs(WorkerStop(P, w)) /\ wpc' = [wpc EXCEPT ![w] = -5]
            /\ UNCHANGED <<que, pend, sema, tokenOf, ntok, nidx, refs, pc, cur, left, wcur, dtor, term>>

Producer(t) == CallLog(t) \/ CallFlush(t) \/ Get(t) \/ Count(t) \/ Token(t) \/ PutMsg(t) \/ Future(t) \/ Release(t) \/ RetP(t) \/ Drain(t) \/ Term(t) \/ Join(t)
Main == DropM \/ Release(0) \/ Drain(0) \/ Term(0) \/ Join(0) \/ DropRetM
Worker(w) == WStart(w) \/ WSema(w) \/ WIndex(w) \/ Take(w) \/ DoStep(w) \/ Finished(w) \/ WStop(w)
Over == pc[0] = "over" /\ (\A t \in Producers : left[t] = 0 /\ pc[t] = "idle") /\ (\A w \in WorkerIds : wpc[w] = -5) /\ UNCHANGED vars
Next == (\E t \in Producers : Producer(t)) \/ Main \/ (\E w \in WorkerIds : Worker(w)) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ (\A t \in Producers : WF_vars(Producer(t))) /\ (\A w \in WorkerIds : WF_vars(Worker(w)))
---------------------------------------------------------------------------------
NotBad == ~bad
Bounded == BoundedQueue
AtEnd == (pc[0] = "over" /\ \A t \in Producers : left[t] = 0 /\ pc[t] = "idle") => unit = Empty /\ Drained(unit, P)
Ends == <>(pc[0] = "over" /\ \A t \in Producers : left[t] = 0 /\ pc[t] = "idle")
=================================================================================

--------------------------- MODULE BlockQueueImpl ---------------------------
(* block_queue as implemented: critical sections under a mutex, two         *)
(* condition variables whose wait sets are explicit, notifications after    *)
(* the mutex was released. Every step is a step of BlockQueue (refinement), *)
(* and when nothing moves nobody waits in vain.                             *)
EXTENDS BlockQueue
CONSTANTS Threads, Cap, Ops, Calls
VARIABLES pc, pushW, popW, left, evicted
ivars == <<cap, q, over, disc, pend, pc, pushW, popW, left, evicted>>
\* pc: idle, run (about to enter its critical section), npush / npop (will notify), cnt, ret
Init == QInit(Cap) /\ pc = [t \in Threads |-> "idle"] /\ pushW = {} /\ popW = {} /\ left = [t \in Threads |-> Calls] /\ evicted = 0
Same == UNCHANGED <<pushW, popW, left, evicted>>
CallI(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E o \in Ops : Call(t, o, 10 * t + left[t], 0)
            /\ pc' = [pc EXCEPT ![t] = "run"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<pushW, popW, evicted>>
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Section(t) ==
  /\ pc[t] = "run" /\ Same
  /\ CASE pend[t].op = "put" -> ~Full /\ Put(t) /\ Go(t, "npush")
       [] pend[t].op = "force" -> Force(t) /\ Go(t, "npush")
       [] pend[t].op = "try" -> Try(t) /\ Go(t, IF Full THEN "cnt" ELSE "npush")
       [] pend[t].op \in {"take", "takefor"} -> q # <<>> /\ Take(t) /\ Go(t, "npop")
       [] OTHER -> FALSE
WaitI(t) ==
  /\ pc[t] = "run"
  /\ \/ pend[t].op = "put" /\ Full /\ popW' = popW \cup {t} /\ UNCHANGED pushW
     \/ pend[t].op \in {"take", "takefor"} /\ q = <<>> /\ pushW' = pushW \cup {t} /\ UNCHANGED popW
  /\ Go(t, "wait") /\ UNCHANGED <<cap, q, over, disc, pend, left, evicted>>
\* a spurious wake-up
Spurious(t) == /\ pc[t] = "wait" /\ Go(t, "run") /\ pushW' = pushW \ {t} /\ popW' = popW \ {t}
               /\ UNCHANGED <<cap, q, over, disc, pend, left, evicted>>
\* time is up: leaves the wait set, then looks once more
TimeUp(t) == /\ pc[t] = "wait" /\ pend[t].op = "takefor" /\ pushW' = pushW \ {t} /\ Go(t, "late")
             /\ UNCHANGED <<cap, q, over, disc, pend, popW, left, evicted>>
Late(t) == /\ pc[t] = "late" /\ Same
           /\ IF q = <<>> THEN GiveUp(t, 0) /\ Go(t, "ret") ELSE Take(t) /\ Go(t, "npop")
Notify(t) ==
  /\ \/ /\ pc[t] = "npush" /\ UNCHANGED popW
        /\ IF pushW = {} THEN Go(t, "ret") /\ UNCHANGED pushW
           ELSE \E w \in pushW : pushW' = pushW \ {w} /\ pc' = [pc EXCEPT ![t] = "ret", ![w] = "run"]
     \/ /\ pc[t] = "npop" /\ UNCHANGED pushW
        /\ IF popW = {} THEN Go(t, "ret") /\ UNCHANGED popW
           ELSE \E w \in popW : popW' = popW \ {w} /\ pc' = [pc EXCEPT ![t] = "ret", ![w] = "run"]
  /\ UNCHANGED <<cap, q, over, disc, pend, left, evicted>>
CountI(t) == pc[t] = "cnt" /\ Count(t) /\ Go(t, "ret") /\ Same
RetI(t) == pc[t] = "ret" /\ Ret(t, pend[t].ok, pend[t].r) /\ Go(t, "idle") /\ Same
Next == \E t \in Threads : CallI(t) \/ Section(t) \/ WaitI(t) \/ TimeUp(t) \/ Late(t) \/ Notify(t) \/ CountI(t) \/ RetI(t)
NextS == Next \/ \E t \in Threads : Spurious(t)
Spec == Init /\ [][Next]_ivars /\ \A t \in Threads : WF_ivars(Section(t) \/ Late(t) \/ Notify(t) \/ CountI(t) \/ RetI(t) \/ WaitI(t))
SpecS == Init /\ [][NextS]_ivars

\* every step is a step of the abstract queue (or none)
AbsNext == \E t \in Threads : \/ \E o \in Ops, v \in {pend'[x].v : x \in DOMAIN pend'} : Call(t, o, v, 0)
                             \/ (t \in DOMAIN pend /\ (Effect(t, 0) \/ (\E ok \in BOOLEAN : Ret(t, ok, pend[t].r))))
Refines == [][AbsNext]_qvars
Quiescent == \A t \in Threads : pc[t] \in {"idle", "wait"}
NoLostWakeup == Quiescent => \A t \in Threads : pc[t] = "wait" => Waiting(t)
Sets == pushW = {t \in Threads : pc[t] = "wait" /\ pend[t].op # "put"} /\ popW = {t \in Threads : pc[t] = "wait" /\ pend[t].op = "put"}
\* an operation that can go on does: an item that stays available reaches a waiting consumer
Served == \A t \in Threads : (pc[t] = "run") ~> (pc[t] \in {"wait", "ret"})
=============================================================================

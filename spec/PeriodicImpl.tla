----------------------------- MODULE PeriodicImpl -----------------------------
(* periodic_function as implemented: a worker that waits on a condition        *)
(* variable with a timeout while it holds a mutex, and a destructor that       *)
(* clears `active` under that mutex, notifies and joins. Spurious wake-ups      *)
(* happen. A timeout is a step of its own (Tick), so that "promptly" can be     *)
(* said: after the destructor has been called, no state is reached in which     *)
(* only the passing of time helps.                                              *)
EXTENDS Integers, TLC
CONSTANTS Runs,       \* at most that many ticks are explored
          Locked      \* the destructor clears `active` with the mutex held
VARIABLES active, mutex, waiting, notified, wpc, dpc, ticks, runs, late
vars == <<active, mutex, waiting, notified, wpc, dpc, ticks, runs, late>>
None == "none"
Init == /\ active = TRUE /\ mutex = None /\ waiting = FALSE /\ notified = FALSE
        /\ wpc = "lock" /\ dpc = "idle" /\ ticks = 0 /\ runs = 0 /\ late = FALSE
\* ---- worker
WLock == /\ wpc = "lock" /\ mutex = None /\ mutex' = "w" /\ wpc' = "test" /\ UNCHANGED <<active, waiting, notified, dpc, ticks, runs, late>>
\* the predicate, evaluated with the mutex held
WTest == /\ wpc = "test"
         /\ IF active THEN wpc' = "wait" /\ UNCHANGED mutex ELSE wpc' = "end" /\ mutex' = None
         /\ UNCHANGED <<active, waiting, notified, dpc, ticks, runs, late>>
\* release and wait in one step
WWait == /\ wpc = "wait" /\ mutex' = None /\ waiting' = TRUE /\ notified' = FALSE /\ wpc' = "asleep" /\ UNCHANGED <<active, dpc, ticks, runs, late>>
\* woken by a notification, or for no reason
WWake == /\ wpc = "asleep" /\ mutex = None /\ waiting' = FALSE /\ mutex' = "w" /\ wpc' = "test" /\ UNCHANGED <<active, notified, dpc, ticks, runs, late>>
Woken == notified /\ WWake
Spurious == ~notified /\ WWake
\* the interval is over: the predicate decides once more
Tick == /\ wpc = "asleep" /\ ~notified /\ ticks < Runs /\ mutex = None
        /\ ticks' = ticks + 1 /\ waiting' = FALSE /\ mutex' = "w"
        /\ wpc' = "due" /\ late' = (late \/ dpc = "join") /\ UNCHANGED <<active, notified, dpc, runs>>
WDue == /\ wpc = "due"
        /\ IF active THEN wpc' = "run" /\ UNCHANGED mutex ELSE wpc' = "end" /\ mutex' = None
        /\ UNCHANGED <<active, waiting, notified, dpc, ticks, runs, late>>
WRun == /\ wpc = "run" /\ runs' = runs + 1 /\ mutex' = None /\ wpc' = "lock" /\ UNCHANGED <<active, waiting, notified, dpc, ticks, late>>
\* ---- destructor
DLock == /\ dpc = "idle" /\ (IF Locked THEN mutex = None /\ mutex' = "d" ELSE UNCHANGED mutex) /\ dpc' = "clear" /\ UNCHANGED <<active, waiting, notified, wpc, ticks, runs, late>>
DClear == /\ dpc = "clear" /\ active' = FALSE /\ mutex' = (IF Locked THEN None ELSE mutex) /\ dpc' = "notify" /\ UNCHANGED <<waiting, notified, wpc, ticks, runs, late>>
DNotify == /\ dpc = "notify" /\ notified' = (notified \/ waiting) /\ dpc' = "join" /\ UNCHANGED <<active, mutex, waiting, wpc, ticks, runs, late>>
DJoin == /\ dpc = "join" /\ wpc = "end" /\ dpc' = "done" /\ UNCHANGED <<active, mutex, waiting, notified, wpc, ticks, runs, late>>
Over == dpc = "done" /\ UNCHANGED vars
Next == WLock \/ WTest \/ WWait \/ Woken \/ Spurious \/ Tick \/ WDue \/ WRun \/ DLock \/ DClear \/ DNotify \/ DJoin \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(WLock \/ WTest \/ WWait \/ Woken \/ WDue \/ WRun) /\ WF_vars(DClear \/ DNotify \/ DJoin)
-------------------------------------------------------------------------------
Mutex == /\ (mutex = "w") = (wpc \in {"test", "wait", "due", "run"}) /\ (Locked => (mutex = "d") = (dpc = "clear"))
\* runs only at ends of intervals, never after the destructor returned
OnlyWhenDue == runs <= ticks /\ (wpc \in {"run"} => dpc # "done") /\ (dpc = "done" => wpc = "end")
\* once the destructor has set active and notified, the worker does not sleep on
NoLostStop == dpc = "join" /\ wpc = "asleep" => notified
\* so that no interval has to pass for it to return: without further ticks it comes to its end
Prompt == ~late
Stops == (dpc = "clear") ~> (dpc = "done")
=============================================================================

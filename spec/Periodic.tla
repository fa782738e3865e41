-------------------------------- MODULE Periodic --------------------------------
(* Periodic tasks and periodic flushing (C14), with the times at which things   *)
(* happen when threads take no time.                                            *)
(*  task[p] = [iv, lo, hi, busy, stop, end]: its next run starts in lo..hi (hi = Inf  *)
(*  while its creation goes on); it was asked to stop at time stop (-1: not),    *)
(*  its last run ended at time end                                              *)
(*  fl: the task that flushes all loggers has the name <<"flush", n>>, n counts  *)
(*  round: the flushing round in progress; reg: registered loggers;             *)
(*  open: calls of the registry that have not returned                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES task, fl, round, reg, sinks, open
pvars == <<task, fl, round, reg, sinks, open>>
Inf == 2000000000
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [x \in {} |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Idle == [f |-> <<>>, left |-> {}, cur |-> {}]
PInit == task = Nothing /\ fl = 0 /\ round = Idle /\ reg = {} /\ sinks = Nothing /\ open = Nothing

\* a task with a positive interval, made at time a
Task(iv, a, hi) == [iv |-> iv, lo |-> a + iv, hi |-> hi, busy |-> FALSE, stop |-> -1, end |-> -1]
Start(p, a) == /\ p \in DOMAIN task /\ ~task[p].busy /\ a >= task[p].lo /\ a <= task[p].hi
               /\ task[p].stop = -1 \/ a = task[p].stop
               /\ task' = [task EXCEPT ![p].busy = TRUE]
After(T, a) == [T EXCEPT !.busy = FALSE, !.lo = Max(T.lo + T.iv, a), !.hi = a + T.iv, !.end = a]
Finish(p, a) == p \in DOMAIN task /\ task[p].busy /\ task' = [task EXCEPT ![p] = After(@, a)]
\* nothing was missed up to time a
Missed(p, a) == /\ ~task[p].busy /\ task[p].stop = -1 /\ a > task[p].hi
Punctual(a) == \A p \in DOMAIN task : Missed(p, a) => round.f # <<>> /\ p[1] = "flush"

Flusher == <<"flush", fl>>
Flushing == {p \in DOMAIN task : p[1] = "flush"}
SinksOf(h) == {sinks[h][k] : k \in DOMAIN sinks[h]}

\* ---- tasks of a program
New(t, p, iv, a) == /\ task' = IF iv > 0 THEN Put(task, p, Task(iv, a, a + iv)) ELSE task
                    /\ open' = Put(open, t, [op |-> "new", p |-> p, at |-> a]) /\ UNCHANGED <<fl, round, reg, sinks>>
Del(t, p, a) == /\ task' = IF p \in DOMAIN task THEN [task EXCEPT ![p].stop = a] ELSE task
                /\ open' = Put(open, t, [op |-> "del", p |-> p, at |-> a]) /\ UNCHANGED <<fl, round, reg, sinks>>
Run(p, a) == Start(p, a) /\ UNCHANGED <<fl, round, reg, sinks, open>>
Done(p, a) == Finish(p, a) /\ UNCHANGED <<fl, round, reg, sinks, open>>

\* ---- flushing all loggers
StopOld(a) == [p \in DOMAIN task |-> IF p = Flusher THEN [task[p] EXCEPT !.stop = a] ELSE task[p]]
Every(t, iv, a) == /\ fl' = fl + 1
                   /\ task' = IF iv > 0 THEN Put(StopOld(a), <<"flush", fl + 1>>, Task(iv, a, Inf)) ELSE StopOld(a)
                   /\ open' = Put(open, t, [op |-> "every", p |-> Flusher, at |-> a]) /\ UNCHANGED <<round, reg, sinks>>
Close(t, a) == /\ task' = StopOld(a) /\ fl' = fl + 1
               /\ open' = Put(open, t, [op |-> "close", p |-> Flusher, at |-> a]) /\ UNCHANGED <<round, reg, sinks>>
RegCall(t, op, h, a) == open' = Put(open, t, [op |-> op, p |-> h, at |-> a]) /\ UNCHANGED <<task, fl, round, reg, sinks>>
\* a change of the registered loggers takes effect (not during a round)
Effect(t) == /\ t \in DOMAIN open /\ open[t].op \in {"reg", "rem", "remall", "close"} /\ round = Idle
             /\ IF open[t].op = "close" /\ open[t].p \in DOMAIN task THEN ~task[open[t].p].busy ELSE TRUE
             /\ reg' = CASE open[t].op = "reg" -> reg \cup {open[t].p} [] open[t].op = "rem" -> reg \ {open[t].p} [] OTHER -> {}
             /\ open' = [open EXCEPT ![t].op = IF @ = "close" THEN "closed" ELSE "done"]
             /\ UNCHANGED <<task, fl, round, sinks>>
\* the first sink of a round, or a further one
Flush(s, a) ==
  \/ /\ round = Idle /\ \E h \in reg : s \in SinksOf(h)
     /\ \E p \in Flushing : Start(p, a)
          /\ round' = [f |-> p, left |-> UNION {SinksOf(h) : h \in reg} \ {s}, cur |-> {s}]
     /\ UNCHANGED <<fl, reg, sinks, open>>
  \/ /\ round # Idle /\ s \in round.left /\ round.cur = {}
     /\ round' = [round EXCEPT !.left = @ \ {s}, !.cur = {s}]
     /\ UNCHANGED <<task, fl, reg, sinks, open>>
Later(T, a) == IF T.busy \/ T.hi >= a THEN T ELSE [T EXCEPT !.hi = a]
Flushed(s, a) == /\ round.cur = {s}
                 /\ IF round.left = {}
                    THEN /\ task' = [p \in DOMAIN task |-> IF p = round.f THEN After(task[p], a) ELSE IF p \in Flushing THEN Later(task[p], a) ELSE task[p]]
                         /\ round' = Idle
                    ELSE round' = [round EXCEPT !.cur = {}] /\ UNCHANGED task
                 /\ UNCHANGED <<fl, reg, sinks, open>>
\* a round without loggers shows nothing
Silent(p, a) == /\ p \in Flushing /\ reg = {} /\ round = Idle /\ ~task[p].busy /\ task[p].stop = -1 /\ task[p].lo <= a
                /\ task' = [task EXCEPT ![p].lo = @ + task[p].iv, ![p].hi = IF @ = Inf THEN Inf ELSE @ + task[p].iv]
                /\ UNCHANGED <<fl, round, reg, sinks, open>>

\* ---- returns: whatever had to stop has stopped, at once or with the end of its run
Ret(t, a) ==
  LET o == open[t]
      p == o.p
      gone == o.op \in {"del", "every", "closed"}
  IN /\ t \in DOMAIN open /\ o.op \notin {"reg", "rem", "remall", "close"}
     /\ o.op = "new" => a = o.at
     /\ IF ~gone THEN TRUE ELSE IF p \in DOMAIN task THEN ~task[p].busy /\ a \in {o.at, task[p].end} ELSE a = o.at
     /\ task' = LET T == IF gone /\ p \in DOMAIN task THEN Rem(task, p) ELSE task IN
                IF o.op = "every" THEN [x \in DOMAIN T |-> IF T[x].hi = Inf /\ ~T[x].busy THEN [T[x] EXCEPT !.hi = a + T[x].iv] ELSE T[x]] ELSE T
     /\ open' = Rem(open, t) /\ UNCHANGED <<fl, round, reg, sinks>>
=================================================================================

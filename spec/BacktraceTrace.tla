---------------------------- MODULE BacktraceTrace ----------------------------
(* Backtrace calls of several threads on one logger (C08): recorded calls,     *)
(* returns and written lines; TLC infers when each call took effect. A log or  *)
(* dump call first looks whether the backtrace is on, later adds its message   *)
(* or takes everything out.                                                    *)
EXTENDS TraceLib
VARIABLES tr, i, on, n, q, pc, todo
vars == <<tr, i, on, n, q, pc, todo>>
T == Traces[tr]
E == T.ev[i]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nothing == [x \in {} |-> 0]
Init == tr \in DOMAIN Traces /\ i = 1 /\ on = FALSE /\ n = 0 /\ q = <<>> /\ pc = Nothing /\ todo = Nothing
\* silent steps of thread t
Silent(t) ==
  /\ i <= Len(T.ev) /\ UNCHANGED <<tr, i>>
  /\ LET p == pc[t] IN
     \/ /\ p.st = "check" /\ pc' = [pc EXCEPT ![t].st = IF on THEN "act" ELSE "done"]
        /\ UNCHANGED <<on, n, q, todo>>
     \/ /\ p.st = "act" /\ p.op = "log" /\ pc' = [pc EXCEPT ![t].st = "done"]
        /\ q' = (IF n = 0 THEN q ELSE IF Len(q) < n THEN Append(q, p.v) ELSE Append(Tail(q), p.v))
        /\ UNCHANGED <<on, n, todo>>
     \/ /\ p.st = "take" /\ pc' = [pc EXCEPT ![t].st = "out"]
        /\ todo' = Put(todo, t, q) /\ q' = <<>>
        /\ UNCHANGED <<on, n>>
     \/ /\ p.st = "act" /\ p.op = "enable" /\ pc' = [pc EXCEPT ![t].st = "done"]
        /\ on' = TRUE /\ n' = p.n /\ q' = <<>> /\ UNCHANGED todo
     \/ /\ p.st = "act" /\ p.op = "disable" /\ pc' = [pc EXCEPT ![t].st = "done"]
        /\ on' = FALSE /\ q' = <<>> /\ UNCHANGED <<n, todo>>
Call == /\ E.e = "call" /\ pc' = Put(pc, E.t, [op |-> E.op, st |-> CASE E.op \in {"log", "dump"} -> "check" [] E.op \in {"enable", "disable"} -> "act" [] OTHER -> "done",
                                               v |-> IF E.op = "log" THEN E.m.txt ELSE "", n |-> IF E.op = "enable" THEN E.n ELSE 0])
        /\ UNCHANGED <<on, n, q, todo>>
Out == /\ E.e = "out" /\ LET p == pc[E.t] IN
          \/ p.op = "dump" /\ p.st = "act" /\ Contains(E.m.txt, "Backtrace Start") /\ pc' = [pc EXCEPT ![E.t].st = "take"] /\ UNCHANGED todo
          \/ p.st = "out" /\ todo[E.t] # <<>> /\ E.m.txt = Head(todo[E.t]) /\ todo' = [todo EXCEPT ![E.t] = Tail(@)] /\ UNCHANGED pc
          \/ p.st = "out" /\ todo[E.t] = <<>> /\ Contains(E.m.txt, "Backtrace End") /\ pc' = [pc EXCEPT ![E.t].st = "done"] /\ UNCHANGED todo
       /\ UNCHANGED <<on, n, q>>
Ret == E.e = "ret" /\ pc[E.t].st = "done" /\ UNCHANGED <<on, n, q, pc, todo>>
Other == E.e \in {"tend", "end"} /\ UNCHANGED <<on, n, q, pc, todo>>
Next == \/ \E t \in DOMAIN pc : Silent(t)
        \/ /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr /\ (Call \/ Out \/ Ret \/ Other)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

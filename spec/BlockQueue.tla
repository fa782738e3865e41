----------------------------- MODULE BlockQueue -----------------------------
(* A bounded FIFO used by several threads. Every operation is called, takes *)
(* effect at one instant (a refused insertion: decides, then counts), and   *)
(* returns. Blocking operations cannot take effect while their condition    *)
(* does not hold.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cap, q, over, disc, pend
qvars == <<cap, q, over, disc, pend>>

QInit(c) == cap = c /\ q = <<>> /\ over = 0 /\ disc = 0 /\ pend = <<>>
\* pend: thread -> [op, v, due, st, ok, v, n]; st: called, counting, done
Full  == Len(q) = cap
Nothing == [ok |-> TRUE, r |-> 0]
Call(t, op, v, due) ==
  /\ t \notin DOMAIN pend
  /\ pend' = pend @@ (t :> [op |-> op, v |-> v, due |-> due, st |-> "called", ok |-> TRUE, r |-> 0])
  /\ UNCHANGED <<cap, q, over, disc>>
Done(t, ok, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].ok = ok, ![t].r = r]

Put(t)   == /\ pend[t].op = "put" /\ ~Full
            /\ q' = Append(q, pend[t].v) /\ Done(t, TRUE, 0) /\ UNCHANGED <<cap, over, disc>>
Force(t) == /\ pend[t].op = "force"
            /\ IF Full THEN q' = Tail(Append(q, pend[t].v)) /\ over' = over + 1
                       ELSE q' = Append(q, pend[t].v) /\ UNCHANGED over
            /\ Done(t, TRUE, 0) /\ UNCHANGED <<cap, disc>>
Try(t)   == /\ pend[t].op = "try"
            /\ IF Full THEN pend' = [pend EXCEPT ![t].st = "counting"] /\ UNCHANGED q
                       ELSE q' = Append(q, pend[t].v) /\ Done(t, TRUE, 0)
            /\ UNCHANGED <<cap, over, disc>>
Count(t) == /\ pend[t].st = "counting" /\ disc' = disc + 1 /\ Done(t, TRUE, 0) /\ UNCHANGED <<cap, q, over>>
Take(t)  == /\ pend[t].op \in {"take", "takefor"} /\ q # <<>>
            /\ q' = Tail(q) /\ Done(t, TRUE, Head(q)) /\ UNCHANGED <<cap, over, disc>>
\* time is up and nothing is there
GiveUp(t, now) == /\ pend[t].op = "takefor" /\ q = <<>> /\ now >= pend[t].due
                  /\ Done(t, FALSE, 0) /\ UNCHANGED <<cap, q, over, disc>>
Size(t)  == pend[t].op = "size" /\ Done(t, TRUE, Len(q)) /\ UNCHANGED <<cap, q, over, disc>>
Over(t)  == pend[t].op = "over" /\ Done(t, TRUE, over) /\ UNCHANGED <<cap, q, over, disc>>
RstO(t)  == pend[t].op = "rstover" /\ over' = 0 /\ Done(t, TRUE, 0) /\ UNCHANGED <<cap, q, disc>>
Disc(t)  == pend[t].op = "disc" /\ Done(t, TRUE, disc) /\ UNCHANGED <<cap, q, over, disc>>
RstD(t)  == pend[t].op = "rstdisc" /\ disc' = 0 /\ Done(t, TRUE, 0) /\ UNCHANGED <<cap, q, over>>

Effect(t, now) ==
  \/ /\ pend[t].st = "called"
     /\ \/ Put(t) \/ Force(t) \/ Try(t) \/ Take(t) \/ GiveUp(t, now)
        \/ Size(t) \/ Over(t) \/ RstO(t) \/ Disc(t) \/ RstD(t)
  \/ Count(t)
Ret(t, ok, r) == /\ t \in DOMAIN pend /\ pend[t].st = "done" /\ pend[t].ok = ok
                 /\ ok => pend[t].r = r
                 /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]]
                 /\ UNCHANGED <<cap, q, over, disc>>

Waiting(t) == \/ pend[t].op = "put" /\ Full
              \/ pend[t].op \in {"take", "takefor"} /\ q = <<>>
\* nobody is left waiting although its condition holds or (margin: some clock ticks) its time is up
NobodyForgotten(now, margin) ==
  \A t \in DOMAIN pend : /\ pend[t].st = "called" /\ Waiting(t)
                         /\ pend[t].op = "takefor" => pend[t].due + margin > now
Bounded == Len(q) <= cap
=============================================================================

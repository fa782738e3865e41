------------------------------- MODULE RingMC -------------------------------
(* The ring buffer as it is implemented (a vector with a spare slot, head   *)
(* and tail indices) refines Ring; every transition is also printed, to be  *)
(* replayed in the real class.                                              *)
EXTENDS Ring, TLC, Json
CONSTANTS Bufs, Caps, Vals, MaxOver, Depth, Mode
VARIABLES ring, impl, op, hist
vars == <<ring, impl, op, hist>>

\* ------------------------------------------------------------ implementation
IInvalid == [max |-> 0, head |-> 0, tail |-> 0, over |-> 0, vec |-> <<>>]
INew(n)  == [max |-> n + 1, head |-> 0, tail |-> 0, over |-> 0, vec |-> [k \in 0..n |-> 0]]
ISize(q) == IF q.max > 0 THEN (q.tail - q.head + q.max) % q.max ELSE 0
IFull(q) == q.max > 0 /\ (q.tail + 1) % q.max = q.head
IEmpty(q) == q.head = q.tail
IAt(q, k) == q.vec[(q.head + k) % q.max]
IPush(q, x) ==
  IF q.max = 0 THEN q
  ELSE LET t == (q.tail + 1) % q.max
           p == [q EXCEPT !.vec[q.tail] = x, !.tail = t]
       IN IF t = q.head THEN [p EXCEPT !.head = (@ + 1) % q.max, !.over = @ + 1] ELSE p
IPop(q) == IF q.max > 0 THEN [q EXCEPT !.head = (@ + 1) % q.max] ELSE q
IApply(m, o) ==
  CASE o.op \in {"new", "anew"} -> [m EXCEPT ![o.b] = INew(o.n)]
    [] o.op \in {"def", "clear"} -> [m EXCEPT ![o.b] = IInvalid]
    [] o.op = "push" -> [m EXCEPT ![o.b] = IPush(@, o.n)]
    [] o.op = "pop"  -> [m EXCEPT ![o.b] = IPop(@)]
    [] o.op \in {"copy", "asg"} -> [m EXCEPT ![o.b] = m[o.c]]
    [] o.op \in {"mov", "masg"} -> [m EXCEPT ![o.b] = m[o.c], ![o.c] = IInvalid]
    [] o.op = "rst" -> [m EXCEPT ![o.b].over = 0]
IObs(q) == [sz |-> ISize(q), em |-> IEmpty(q), fu |-> IFull(q), it |-> [k \in 1..ISize(q) |-> IAt(q, k - 1)], ov |-> q.over]

\* ------------------------------------------------------------------- system
Ops == [op : {"new", "anew"}, b : Bufs, c : {""}, n : Caps]
  \cup [op : {"def", "clear", "pop", "rst"}, b : Bufs, c : {""}, n : {0}]
  \cup [op : {"push"}, b : Bufs, c : {""}, n : Vals]
  \cup [op : {"copy", "asg", "mov", "masg"}, b : Bufs, c : Bufs, n : {0}]
Init == ring = [b \in Bufs |-> Invalid] /\ impl = [b \in Bufs |-> IInvalid] /\ op = [op |-> "init"] /\ hist = <<>>
Do(o) == /\ Enabled(ring, o)
         /\ ring' = Apply(ring, o) /\ impl' = IApply(impl, o) /\ op' = o
         /\ hist' = IF Mode = "sim" THEN Append(hist, o) ELSE hist
Next == \E o \in Ops : Do(o)
\* random walks: mostly insertions and removals
SimNext == \/ \E b \in Bufs, k \in 1..6, x \in Vals : Do([op |-> "push", b |-> b, c |-> "", n |-> x])
           \/ \E b \in Bufs, k \in 1..3 : Do([op |-> "pop", b |-> b, c |-> "", n |-> 0])
           \/ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

Refines == \A b \in Bufs : IObs(impl[b]) = Obs(ring[b])
Bounded == \A b \in Bufs : /\ Len(ring[b].items) <= ring[b].cap
                           /\ ~ring[b].ok => ring[b] = Invalid
\* buffers are independent: an operation changes the buffers it names only
Independent == [][\A b \in Bufs : (ring'[b] # ring[b]) => b \in {op'.b} \cup (IF op'.op \in {"mov", "masg"} THEN {op'.c} ELSE {})]_vars

Small == \A b \in Bufs : ring[b].over <= MaxOver
View == <<ring, impl>>
AView == ring
Emit == Mode # "graph" \/ PrintT(<<"TR", ToJson(ring), ToJson(op'), ToJson(ring')>>)
EmitSim == Mode # "sim" \/ Len(hist) < Depth \/ PrintT(<<"SIM", ToJson(hist)>>)
=============================================================================

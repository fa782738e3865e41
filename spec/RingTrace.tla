------------------------------ MODULE RingTrace ------------------------------
(* Recorded runs of circular_queue against Ring: every operation, and what  *)
(* all the public methods of all buffers show after it.                     *)
EXTENDS Ring, TraceLib
VARIABLES tr, i, ring
vars == <<tr, i, ring>>
T == Traces[tr]
E == T.ev[i]
Bufs == {"a", "b", "c"}
Init == tr \in DOMAIN Traces /\ i = 1 /\ ring = [b \in Bufs |-> Invalid]
Next == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
        /\ \/ /\ E.e = "op" /\ Enabled(ring, E)
              /\ ring' = Apply(ring, E)
              /\ \A b \in Bufs : E.st[b] = Obs(ring'[b])
           \/ E.e = "end" /\ UNCHANGED ring
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares: the recorded traces and the      *)
(* bookkeeping of how far each was explained (run with -workers 1).        *)
EXTENDS Integers, Sequences, TLC, TLCExt, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.VT_TRACES)
ASSUME \A k \in DOMAIN Traces : TLCSet(k, 1)

\* a state constraint: position n of trace k was reached
Mark(k, n, len) == IF TLCGet(k) < n THEN TLCSet(k, n) ELSE TRUE

\* traces not explained to their end: <<number, first unexplained event>>
Rejected == {k \in DOMAIN Traces : TLCGet(k) <= Len(Traces[k].ev)}
Report == PrintT(<<"VT", Len(Traces), ToJson([k \in Rejected |-> TLCGet(k)])>>)

SeqSet(s) == {s[k] : k \in DOMAIN s}
Contains(t, x) == \E k \in 0..(Len(t) - Len(x)) : SubSeq(t, k + 1, k + Len(x)) = x
=============================================================================

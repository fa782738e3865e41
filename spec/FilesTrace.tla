------------------------------ MODULE FilesTrace ------------------------------
(* Recorded runs of file and rolling sinks against Files.                       *)
EXTENDS Files, TraceLib
VARIABLES tr, i, st, mid
vars == <<tr, i, st, mid>>
T == Traces[tr]
E == T.ev[i]
NoOp == [op |-> ""]
Init == tr \in DOMAIN Traces /\ i = 1 /\ st = Initial /\ mid = NoOp
\* an error names the file
Named(o) == o.op \in {"open", "log", "flush"} /\ o.path # "@full" /\ (o.op # "open" \/ o.kind = "file" \/ (o.max > 0 /\ o.num <= MaxNum)) =>
              LET f == FileOf(o.path) k == LastIn(f, ".", Len(f)) IN \A n \in DOMAIN o.errs : o.fault.fn = "fflush" \/ Contains(o.errs[n], IF k <= 1 THEN f ELSE SubSeq(f, 1, k - 1))
OpE == /\ E.e = "op"
       /\ \E r \in Outcomes(st, E) :
            /\ r.lo <= Len(E.errs) /\ Len(E.errs) <= r.hi
            /\ IF E.see THEN Agrees(r.st, E.fs) /\ st' = Seen(r.st, E.fs) ELSE st' = r.st
            /\ E.fds = OpenFiles(r.st)
       /\ Named(E) /\ mid' = NoOp
\* the process is about to end inside this operation
CallE == E.e = "call" /\ mid' = E /\ UNCHANGED st
\* what is left after it ended
LeftE == /\ E.e = "left"
         /\ \E s \in (IF mid.op = "" THEN {st} ELSE Midway(st, mid)) : Agrees(s, E.fs) /\ st' = s
         /\ UNCHANGED mid
EndE == E.e = "end" /\ UNCHANGED <<st, mid>>
Next == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
        /\ (OpE \/ CallE \/ LeftE \/ EndE)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

------------------------------ MODULE OutputTrace ------------------------------
(* Recorded concurrent use of thread-safe sinks (C17): what was found in the   *)
(* end on the streams and in the files is a sequence of whole records, one per *)
(* message and sink, each made by a pattern (and colour) in force during its   *)
(* call, the records of a thread in its order.                                 *)
EXTENDS Console, TraceLib
VARIABLES tr, i, env, snk, open, late, pos
(* snk: sink -> [.. as in Console .., kind, max]                               *)
(* open: thread -> [o: its call, k: the sink it is at, fs, cs: formatters and  *)
(*       colours in force at that sink since the call began]                   *)
(* late: as open, for messages whose (asynchronous) call has returned         *)
(* pos: place -> [f, p]: so many bytes of the f-th file there are accounted for *)
vars == <<tr, i, env, snk, open, late, pos>>
T == Traces[tr]
E == T.ev[i]
N == Len(T.ev)
EscOf == Traces[1].ev[1].esc
Complete == N > 2 /\ T.ev[N - 1].e = "left"
Final == T.ev[N - 1]
Console4 == {"out", "err", "cout", "cerr"}
\* where a sink's bytes go
Place(h) == IF snk[h].kind \in Console4 THEN (IF env.same THEN "out" ELSE snk[h].stream) ELSE h
Content(h, f) == IF snk[h].kind \in Console4 THEN (IF Place(h) = "out" THEN Final.out ELSE Final.er) ELSE Final.files[h][f]
Files(h) == IF snk[h].kind \in Console4 THEN 1 ELSE Len(Final.files[h])
At0 == [f |-> 1, p |-> 0]
Where(h) == IF Place(h) \in DOMAIN pos THEN pos[Place(h)] ELSE At0

Init == /\ tr \in DOMAIN Traces /\ i = 1 /\ env = [same |-> FALSE] /\ snk = Nothing /\ open = Nothing /\ late = <<>> /\ pos = Nothing
Enter(o, k) == [o |-> o, k |-> k, fs |-> {snk[o.hs[n]].fmt : n \in {k} \cap DOMAIN o.hs}, cs |-> IF o.op = "log" THEN {snk[o.hs[n]].col[o.lv] : n \in {k} \cap DOMAIN o.hs} ELSE {}]
Further(c) == IF c.k < Len(c.o.hs) THEN Enter(c.o, c.k + 1) ELSE [c EXCEPT !.k = @ + 1]
\* the record of t at its sink is the next in that place
Here(h, rec) ==
  LET w == Where(h)
      next == snk[h].max > 0 /\ w.p > 0 /\ w.p + Len(rec) > snk[h].max
      v == IF next THEN [f |-> w.f + 1, p |-> 0] ELSE w
  IN /\ next => w.p = Len(Content(h, w.f))
     /\ v.f <= Files(h)
     /\ v.p + Len(rec) <= Len(Content(h, v.f)) /\ SubSeq(Content(h, v.f), v.p + 1, v.p + Len(rec)) = rec
     /\ pos' = Put(pos, Place(h), [v EXCEPT !.p = @ + Len(rec)])
Busy(c) == c.k <= Len(c.o.hs)
PutRec(c) ==
  LET h == c.o.hs[c.k] IN
  \E f \in c.fs, cd \in c.cs : Here(h, Paint([snk[h] EXCEPT !.col[c.o.lv] = cd], Format(f, c.o.m, c.o.pid), c.o.lv))
\* one worker takes the messages of a thread in order
Waits(t, n) == env.fifo /\ \E k \in 1..n : late[k].o.t = t
PutOpen(t) == /\ open[t].o.op = "log" /\ (open[t].o.as => ~Waits(t, Len(late))) /\ PutRec(open[t])
              /\ open' = Put(open, t, Further(open[t])) /\ UNCHANGED <<snk, late>>
PutLate(n) == /\ ~Waits(late[n].o.t, n - 1) /\ PutRec(late[n])
              /\ late' = IF late[n].k = Len(late[n].o.hs) THEN SubSeq(late, 1, n - 1) \o SubSeq(late, n + 1, Len(late)) ELSE [late EXCEPT ![n] = Further(@)]
              /\ UNCHANGED <<snk, open>>
\* a changed pattern or colour: from now on, and for those in the middle of their call too
Sees(c, h, f, cs) == IF c.o.op = "log" /\ Busy(c) /\ c.o.hs[c.k] = h
                     THEN [c EXCEPT !.fs = @ \cup f, !.cs = @ \cup {x.code : x \in {y \in cs : y.lv = c.o.lv}}] ELSE c
Changed(t, h, f, cs) == /\ open' = [x \in DOMAIN open |-> IF x = t THEN Further(open[t]) ELSE Sees(open[x], h, f, cs)]
                        /\ late' = [n \in DOMAIN late |-> Sees(late[n], h, f, cs)] /\ UNCHANGED pos
SetIt(t) ==
  LET c == open[t] h == c.o.hs[c.k] f == NewFormatter(c.o.pat, c.o.eol, Nothing, Zero) IN
  c.o.op = "fmt" /\ snk' = [snk EXCEPT ![h].fmt = f] /\ Changed(t, h, {f}, {})
TintIt(t) ==
  LET c == open[t] h == c.o.hs[1] IN
  c.o.op = "color" /\ snk' = [snk EXCEPT ![h].col[c.o.lv] = c.o.code] /\ Changed(t, h, {}, {[lv |-> c.o.lv, code |-> c.o.code]})
\* (only right before a return, or in the end)
Silent == /\ i <= N /\ E.e \in {"ret", "left"} /\ Complete
          /\ \/ \E t \in DOMAIN open : Busy(open[t]) /\ (PutOpen(t) \/ SetIt(t) \/ TintIt(t))
             \/ \E n \in DOMAIN late : PutLate(n)
          /\ UNCHANGED <<tr, i, env>>
EnvE == E.e = "env" /\ env' = [term |-> E.term, cterm |-> E.cterm, out |-> E.out, err |-> E.err, same |-> E.same, fifo |-> E.fifo] /\ UNCHANGED <<snk, open, late, pos>>
Setup == {"sink", "sinkt", "fac", "lgr", "alg"}
CallE == /\ E.e = "call"
         /\ open' = Put(open, E.t, IF E.op = "flush" THEN [o |-> E, k |-> Len(E.hs) + 1, fs |-> {}, cs |-> {}] ELSE Enter(E, 1))
         /\ UNCHANGED <<env, snk, late, pos>>
RetE == /\ E.e = "ret" /\ E.err = ""
        /\ IF E.op \in Setup THEN /\ snk' = IF E.op \in {"lgr", "alg"} THEN snk ELSE Put(snk, E.hs[1], [kind |-> E.kind, max |-> E.max] @@ NewSink(env, E.kind))
                                  /\ UNCHANGED <<open, late>>
           ELSE /\ E.as \/ ~Busy(open[E.t])
                /\ late' = IF Busy(open[E.t]) THEN Append(late, open[E.t]) ELSE late
                /\ open' = [x \in DOMAIN open \ {E.t} |-> open[x]] /\ UNCHANGED snk
        /\ UNCHANGED <<env, pos>>
LeftE == /\ E.e = "left" /\ open = Nothing /\ late = <<>>
         /\ \A h \in DOMAIN snk : Where(h).f = Files(h) /\ Where(h).p = Len(Content(h, Files(h)))
         /\ \A h \in DOMAIN snk : snk[h].kind \in Console4 \/ h \in DOMAIN E.files
         /\ (\A h \in DOMAIN snk : ~(snk[h].kind \in Console4 /\ Place(h) = "out")) => E.out = ""
         /\ (\A h \in DOMAIN snk : ~(snk[h].kind \in Console4 /\ Place(h) = "err")) => E.er = ""
         /\ UNCHANGED <<env, snk, open, late, pos>>
EndE == E.e = "end" /\ UNCHANGED <<env, snk, open, late, pos>>
Next == \/ Silent
        \/ i <= N /\ i' = i + 1 /\ UNCHANGED tr /\ (EnvE \/ CallE \/ RetE \/ LeftE \/ EndE)
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, N)
=============================================================================

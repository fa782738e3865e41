-------------------------------- MODULE Logger --------------------------------
(* Loggers, their sinks and backtraces (C08, C09, C10, C19, C21).            *)
(*                                                                           *)
(* The state is a record                                                     *)
(*   snk: sink -> [kind, lv, f (its formatter), ff]            *)
(*        (ff: that many of the next flushes fail; -1: all)                  *)
(*        kinds: "raw" and "fmt" (formatting) show what they get, "null"     *)
(*        does nothing, "full" is a console sink whose stream takes nothing  *)
(*   lg:  logger -> [nm, sinks, lv, fl, pat, as, tr]                         *)
(*   tr:  number -> [on, n, q]   backtraces, loggers refer to them (0: none) *)
(*   pools: number -> [ty, q, w, up, held]   thread pools                          *)
(*   reg: the registry (see Registry)                                        *)
(* An operation gives the next state and the list of effects it must have,   *)
(* in this order:                                                            *)
(*   [k |-> "out", s, m]            sink s got message m                     *)
(*   [k |-> "txt", s, txt, cs, ce]  formatting sink s wrote a record         *)
(*   [k |-> "flush", s]             sink s was flushed                       *)
(*   [k |-> "report", txt]          one error report with this text          *)
EXTENDS Pattern, FiniteSets

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [x \in {} |-> 0]
OFF == 6
NoFlags == Nothing
Desc(pat, eol, cust) == [pat |-> pat, eol |-> eol, cust |-> cust]
\* asynchronous loggers of runs without a registry belong to pool 1
Initial == [snk |-> Nothing, lg |-> Nothing, tr |-> Nothing, pools |-> <<[ty |-> "", q |-> 0, w |-> 0, up |-> TRUE, held |-> FALSE]>>,
            reg |-> [map |-> Nothing, def |-> "", gpat |-> "%+", gf |-> Desc("%+", "\n", NoFlags), glv |-> 2, gfl |-> OFF, auto |-> TRUE, pool |-> 1]]
Has(t, x) == \E k \in 0..(Len(t) - Len(x)) : SubSeq(t, k + 1, k + Len(x)) = x

\* a sink fails to write the messages that carry its mark
FailMark(s) == "!" \o s \o "!"
WriteError(s, m) == "write error in " \o s \o ": " \o m.txt
FlushError(s) == "flush error in " \o s

\* ------------------------------------------------------------- one message
\* <<effects, sinks>> of giving m to sink s
GiveSink(S, s, m, pid) ==
  IF S[s].lv > m.lv THEN <<<<>>, S>>
  ELSE IF S[s].kind = "raw"
       THEN <<<<[k |-> "out", s |-> s, m |-> m]>> \o (IF Has(m.txt, FailMark(s)) THEN <<[k |-> "report", txt |-> WriteError(s, m)]>> ELSE <<>>), S>>
       ELSE IF S[s].kind = "null" THEN <<<<>>, S>>
       ELSE LET f == S[s].f
                r == Format(f, m, pid)
                S2 == [S EXCEPT ![s].f = Used(f, m)]
            IN IF Raises(f) THEN <<<<[k |-> "report", txt |-> "flag " \o f.toks[RaisesAt(f)].tag]>>, S2>>
               ELSE IF S[s].kind = "full" THEN <<IF r.txt = "" THEN <<>> ELSE <<[k |-> "report", txt |-> "write() failed"]>>, S2>>
               ELSE <<<<[k |-> "txt", s |-> s, txt |-> r.txt, cs |-> r.cs, ce |-> r.ce]>>
                      \o (IF Has(m.txt, FailMark(s)) THEN <<[k |-> "report", txt |-> WriteError(s, m)]>> ELSE <<>>), S2>>
RECURSIVE GiveAll(_, _, _, _, _)
GiveAll(S, ss, m, pid, eff) ==
  IF ss = <<>> THEN <<eff, S>>
  ELSE LET g == GiveSink(S, Head(ss), m, pid) IN GiveAll(g[2], Tail(ss), m, pid, eff \o g[1])
RECURSIVE FlushAll(_, _, _)
FlushAll(S, ss, eff) ==
  IF ss = <<>> THEN <<eff, S>>
  ELSE LET s == Head(ss)
           shown == S[s].kind \in {"raw", "fmt"}
           bad == shown /\ S[s].ff # 0
           S2 == IF bad /\ S[s].ff > 0 THEN [S EXCEPT ![s].ff = @ - 1] ELSE S
       IN FlushAll(S2, Tail(ss), eff \o (IF shown THEN <<[k |-> "flush", s |-> s]>> ELSE <<>>) \o (IF bad THEN <<[k |-> "report", txt |-> FlushError(s)]>> ELSE <<>>))
\* an asynchronous logger whose pool is gone: one report, nothing else
Gone(st, L) == L.as /\ (L.pool = 0 \/ ~st.pools[L.pool].up)
GoneReport == <<[k |-> "report", txt |-> ""]>>
\* writing m through logger L: all sinks, then the flush it asks for
Write(S, L, m, pid) ==
  LET g == GiveAll(S, L.sinks, m, pid, <<>>) IN
  IF m.lv >= L.fl /\ m.lv # OFF
  THEN LET f == FlushAll(g[2], L.sinks, <<>>) IN <<g[1] \o f[1], f[2]>>
  ELSE g
RECURSIVE WriteAll(_, _, _, _, _)
WriteAll(S, L, ms, pid, eff) ==
  IF ms = <<>> THEN <<eff, S>>
  ELSE LET w == Write(S, L, Head(ms), pid) IN WriteAll(w[2], L, Tail(ms), pid, eff \o w[1])

\* --------------------------------------------------------------- backtrace
Tracing(st, h) == st.lg[h].tr # 0 /\ st.tr[st.lg[h].tr].on
Remember(T, m) == IF T.n = 0 THEN T ELSE [T EXCEPT !.q = IF Len(@) < T.n THEN Append(@, m) ELSE Append(Tail(@), m)]
NewTracer(n) == [on |-> TRUE, n |-> n, q |-> <<>>]

\* -------------------------------------------------------------- operations
(* o: the operation and its arguments; o.m: the message without its logger's  *)
(* name; o.now; o.pid                                                         *)
NewLogger(nm, ss, as, pool) == [nm |-> nm, sinks |-> ss, lv |-> 2, fl |-> OFF, pat |-> "%+", as |-> as, tr |-> 0, pool |-> IF as THEN pool ELSE 0]
DefaultFormatter(now) == NewFormatter("%+", "\n", NoFlags, now)
RECURSIVE SetAll(_, _, _)
SetAll(S, ss, f) == IF ss = <<>> THEN S ELSE SetAll([S EXCEPT ![Head(ss)].f = f], Tail(ss), f)
OneFlag(o) == IF o.c = "" THEN NoFlags ELSE [c \in {o.c} |-> [tag |-> o.tag, bad |-> o.bad]]
Drop1(ss, k) == SubSeq(ss, 1, k - 1) \o SubSeq(ss, k + 1, Len(ss))

Named(st, o) == [nm |-> st.lg[o.h].nm, txt |-> o.m.txt, lv |-> o.m.lv, file |-> o.m.file, line |-> o.m.line, fn |-> o.m.fn,
                 tid |-> o.m.tid, day |-> o.m.day, sod |-> o.m.sod, ns |-> o.m.ns]
Marker(st, o, txt) == [nm |-> st.lg[o.h].nm, txt |-> txt, lv |-> 2, file |-> "", line |-> 0, fn |-> "", tid |-> o.tid,
                       day |-> o.now.day, sod |-> o.now.sod, ns |-> o.now.ns]
StartMark == "*********************** Backtrace Start ***********************"
EndMark   == "************************ Backtrace End ************************"

Only(st) == [eff |-> <<>>, st |-> st]
DoLog(st, o) ==
  LET m == Named(st, o)
      L == st.lg[o.h]
      on == m.lv >= L.lv
      tr == Tracing(st, o.h)
  IN IF ~on /\ ~tr THEN Only(st)
     ELSE IF o.err # "" THEN [eff |-> <<[k |-> "report", txt |-> o.err]>>, st |-> st]
     ELSE LET w == IF ~on THEN <<<<>>, st.snk>> ELSE IF Gone(st, L) THEN <<GoneReport, st.snk>> ELSE Write(st.snk, L, m, o.pid) IN
          [eff |-> w[1], st |-> [st EXCEPT !.snk = w[2], !.tr = IF tr THEN [@ EXCEPT ![L.tr] = Remember(@, m)] ELSE @]]
DoDump(st, o) ==
  LET L == st.lg[o.h] IN
  IF ~Tracing(st, o.h) THEN Only(st)
  ELSE IF Gone(st, L) THEN [eff |-> [k \in 1..(Len(st.tr[L.tr].q) + 2) |-> GoneReport[1]], st |-> [st EXCEPT !.tr[L.tr].q = <<>>]]
  ELSE LET w == WriteAll(st.snk, L, <<Marker(st, o, StartMark)>> \o st.tr[L.tr].q \o <<Marker(st, o, EndMark)>>, o.pid, <<>>) IN
       [eff |-> w[1], st |-> [st EXCEPT !.snk = w[2], !.tr[L.tr].q = <<>>]]
DoEnable(st, o) ==
  LET L == st.lg[o.h]
      id == IF L.tr # 0 THEN L.tr ELSE Cardinality(DOMAIN st.tr) + 1
  IN Only([st EXCEPT !.tr = Put(@, id, NewTracer(o.n)), !.lg[o.h].tr = id])
DoDisable(st, o) ==
  LET L == st.lg[o.h] IN
  Only(IF L.tr = 0 THEN st ELSE [st EXCEPT !.tr[L.tr] = [on |-> FALSE, n |-> @.n, q |-> <<>>]])
DoFlush(st, o) == IF Gone(st, st.lg[o.h]) THEN [eff |-> GoneReport, st |-> st] ELSE LET f == FlushAll(st.snk, st.lg[o.h].sinks, <<>>) IN [eff |-> f[1], st |-> [st EXCEPT !.snk = f[2]]]
\* swapping exchanges everything but the kind (synchronous, or the pool)
Swapped(a, b) == [b EXCEPT !.as = a.as, !.pool = a.pool]

Do(st, o) ==
  CASE o.op = "sink"    -> Only([st EXCEPT !.snk = Put(@, o.s, [kind |-> o.kind, lv |-> o.n, f |-> DefaultFormatter(o.now), ff |-> 0])])
    [] o.op = "new"     -> Only([st EXCEPT !.lg = Put(@, o.h, NewLogger(o.nm, o.ss, o.as, st.reg.pool))])
    [] o.op = "lv"      -> Only([st EXCEPT !.lg[o.h].lv = o.n])
    [] o.op = "fl"      -> Only([st EXCEPT !.lg[o.h].fl = o.n])
    [] o.op = "slv"     -> Only([st EXCEPT !.snk[o.s].lv = o.n])
    [] o.op = "ff"      -> Only([st EXCEPT !.snk[o.s].ff = o.n])
    [] o.op = "add"     -> Only([st EXCEPT !.lg[o.h].sinks = Append(@, o.s)])
    [] o.op = "rm"      -> Only([st EXCEPT !.lg[o.h].sinks = Drop1(@, o.n)])
    [] o.op = "pat"     -> Only([st EXCEPT !.lg[o.h].pat = o.pat, !.snk = SetAll(@, st.lg[o.h].sinks, NewFormatter(o.pat, "\n", NoFlags, o.now))])
    [] o.op = "fmtr"    -> Only([st EXCEPT !.snk = SetAll(@, st.lg[o.h].sinks, NewFormatter(o.pat, o.eol, OneFlag(o), o.now))])
    [] o.op = "spat"    -> Only([st EXCEPT !.snk[o.s].f = NewFormatter(o.pat, "\n", NoFlags, o.now)])
    [] o.op = "sfmtr"   -> Only([st EXCEPT !.snk[o.s].f = NewFormatter(o.pat, o.eol, OneFlag(o), o.now)])
    [] o.op = "clone"   -> Only([st EXCEPT !.lg = Put(@, o.h, [st.lg[o.g] EXCEPT !.nm = o.nm])])
    [] o.op = "copy"    -> Only([st EXCEPT !.lg = Put(@, o.h, st.lg[o.g])])
    [] o.op = "move"    -> Only([st EXCEPT !.lg = Put(Rem(@, o.g), o.h, st.lg[o.g])])
    [] o.op = "swap"    -> Only([st EXCEPT !.lg = [@ EXCEPT ![o.h] = Swapped(st.lg[o.h], st.lg[o.g]), ![o.g] = Swapped(st.lg[o.g], st.lg[o.h])]])
    [] o.op = "del"     -> Only([st EXCEPT !.lg = Rem(@, o.h)])
    [] o.op = "enable"  -> DoEnable(st, o)
    [] o.op = "disable" -> DoDisable(st, o)
    [] o.op = "dump"    -> DoDump(st, o)
    [] o.op = "flush"   -> DoFlush(st, o)
    [] o.op = "log"     -> DoLog(st, o)
    [] o.op = "none"    -> Only(st)

\* what the accessors show
LgObs(L) == [nm |-> L.nm, lv |-> L.lv, fl |-> L.fl, pat |-> L.pat, as |-> L.as, sinks |-> L.sinks]
Obs(st) == [lg |-> [h \in DOMAIN st.lg |-> LgObs(st.lg[h])], sl |-> [s \in DOMAIN st.snk |-> st.snk[s].lv]]
=============================================================================

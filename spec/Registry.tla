------------------------------- MODULE Registry -------------------------------
(* The registry: names, default logger, global settings, thread pool          *)
(* (C11, C12, C13). st.reg = [map: name -> logger, def, gpat, gf (formatter   *)
(* as [pat, eol, cust]), glv, gfl, auto, pool]; "" and 0 stand for none.      *)
EXTENDS Logger

StartState(st) ==
  [st EXCEPT !.lg = Put(@, "D0", NewLogger("default_logger", <<>>, FALSE, 0)), !.pools = <<>>,
             !.reg = [map |-> [x \in {"default_logger"} |-> "D0"], def |-> "D0", gpat |-> "%+", gf |-> Desc("%+", "\n", NoFlags),
                      glv |-> 2, gfl |-> OFF, auto |-> TRUE, pool |-> 0]]

Err(st, txt) == [eff |-> <<[k |-> "report", txt |-> txt]>>, st |-> st]
Range(f) == {f[x] : x \in DOMAIN f}
Known(st, nm) == nm \in DOMAIN st.reg.map
Apply(st, h, g, now) == [st EXCEPT !.snk = SetAll(@, st.lg[h].sinks, NewFormatter(g.pat, g.eol, g.cust, now))]
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(st, hs, g, now) == IF hs = {} THEN st ELSE LET h == CHOOSE x \in hs : TRUE IN ApplyAll(Apply(st, h, g, now), hs \ {h}, g, now)
EachLogger(st, f(_)) == [st EXCEPT !.lg = [h \in DOMAIN @ |-> IF h \in Range(st.reg.map) THEN f(@[h]) ELSE @[h]]]

Register(st, h) == IF Known(st, st.lg[h].nm) THEN Err(st, st.lg[h].nm) ELSE Only([st EXCEPT !.reg.map = Put(@, st.lg[h].nm, h)])
Configure(st, h, now) ==
  LET s == [st EXCEPT !.lg[h].pat = st.reg.gpat, !.lg[h].lv = st.reg.glv, !.lg[h].fl = st.reg.gfl]
  IN Apply(s, h, st.reg.gf, now)
Initialise(st, h, now) == LET s == Configure(st, h, now) IN IF s.reg.auto THEN Register(s, h) ELSE Only(s)
Remove(st, nm) ==
  LET m == IF Known(st, nm) THEN Rem(st.reg.map, nm) ELSE st.reg.map
      d == IF st.reg.def # "" /\ st.lg[st.reg.def].nm = nm THEN "" ELSE st.reg.def
  IN [st EXCEPT !.reg.map = m, !.reg.def = d]
SetDefault(st, h) == [st EXCEPT !.reg.map = Put(@, st.lg[h].nm, h), !.reg.def = h]
\* the registered pool p is replaced by q (0: none): it shuts down unless the user keeps it too,
\* asynchronous loggers leave the registry
Released(st) == IF st.reg.pool = 0 THEN st.pools ELSE [st.pools EXCEPT ![st.reg.pool].up = st.pools[st.reg.pool].held]
Replace(st, q) ==
  LET as(h) == st.lg[h].as
      m == st.reg.map
      down == Released(st)
  IN [st EXCEPT !.pools = IF q = <<>> THEN down ELSE Append(down, [ty |-> q.ty, q |-> q.q, w |-> q.w, up |-> TRUE, held |-> FALSE]),
                !.reg.pool = IF q = <<>> THEN 0 ELSE Len(down) + 1,
                !.reg.map = [x \in {y \in DOMAIN m : ~as(m[y])} |-> m[x]],
                !.reg.def = IF @ # "" /\ as(@) THEN "" ELSE @]
PoolSize(o) == [ty |-> o.ty, q |-> o.q, w |-> o.w]
Close(st) == [st EXCEPT !.pools = Released(st), !.reg.pool = 0, !.reg.map = Nothing, !.reg.def = ""]
\* a new logger with a sink of its own
WithSink(st, o) == [st EXCEPT !.snk = Put(@, o.s, [kind |-> "fmt", lv |-> 0, f |-> DefaultFormatter(o.now), ff |-> 0])]
Create(st, o) ==
  LET p == IF st.reg.pool = 0 THEN [ty |-> "", q |-> 8192, w |-> 1] ELSE st.pools[st.reg.pool]
      s1 == IF o.kind = "sync" \/ p.ty = o.kind THEN st ELSE Replace(st, [ty |-> o.kind, q |-> p.q, w |-> p.w])
      s2 == WithSink(s1, o)
      s3 == [s2 EXCEPT !.lg = Put(@, o.h, NewLogger(o.nm, <<o.s>>, o.kind # "sync", s2.reg.pool))]
  IN Initialise(s3, o.h, o.now)

\* flushing every registered logger, in the order hs
RECURSIVE FlushIn(_, _, _)
FlushIn(st, hs, eff) ==
  IF hs = <<>> THEN [eff |-> eff, st |-> st]
  ELSE LET d == DoFlush(st, [h |-> Head(hs)]) IN FlushIn(d.st, Tail(hs), eff \o d.eff)
Orders(S) == {f \in [1..Cardinality(S) -> S] : Range(f) = S}
\* (a logger is flushed once for every name it is registered under)
FlushOrders(st) == {[k \in DOMAIN f |-> st.reg.map[f[k]]] : f \in Orders(DOMAIN st.reg.map)}

RegOps == {"rstart", "rinit", "rreg", "rauto", "rrem", "rdef", "rdefnone", "rgpat", "rgfmt", "rpat", "rglv", "rlv", "rgfl", "rfl", "rremall",
           "rpool", "rnopool", "rcreate", "rclose", "rhold", "rdrop", "rexit"}
RDo(st, o) ==
  CASE o.op = "rstart"   -> Only(StartState(st))
    [] o.op = "rinit"    -> Initialise(st, o.h, o.now)
    [] o.op = "rreg"     -> Register(st, o.h)
    [] o.op = "rauto"    -> Only([st EXCEPT !.reg.auto = (o.n = 1)])
    [] o.op = "rrem"     -> Only(Remove(st, o.nm))
    [] o.op = "rdef"     -> Only(SetDefault(st, o.h))
    [] o.op = "rdefnone" -> Only([st EXCEPT !.reg.def = ""])
    [] o.op = "rgpat"    -> LET g == Desc(o.pat, "\n", NoFlags)
                                s == EachLogger([st EXCEPT !.reg.gpat = o.pat, !.reg.gf = g], LAMBDA x : [x EXCEPT !.pat = o.pat])
                            IN Only(ApplyAll(s, Range(st.reg.map), g, o.now))
    [] o.op = "rgfmt"    -> LET g == Desc(o.pat, o.eol, OneFlag(o)) IN Only(ApplyAll([st EXCEPT !.reg.gf = g], Range(st.reg.map), g, o.now))
    [] o.op = "rpat"     -> IF ~Known(st, o.nm) THEN Err(st, o.nm)
                            ELSE LET h == st.reg.map[o.nm] IN Only(Apply([st EXCEPT !.lg[h].pat = o.pat], h, Desc(o.pat, "\n", NoFlags), o.now))
    [] o.op = "rglv"     -> Only(EachLogger([st EXCEPT !.reg.glv = o.n], LAMBDA x : [x EXCEPT !.lv = o.n]))
    [] o.op = "rgfl"     -> Only(EachLogger([st EXCEPT !.reg.gfl = o.n], LAMBDA x : [x EXCEPT !.fl = o.n]))
    [] o.op = "rlv"      -> IF ~Known(st, o.nm) THEN Err(st, o.nm) ELSE Only([st EXCEPT !.lg[st.reg.map[o.nm]].lv = o.n])
    [] o.op = "rfl"      -> IF ~Known(st, o.nm) THEN Err(st, o.nm) ELSE Only([st EXCEPT !.lg[st.reg.map[o.nm]].fl = o.n])
    [] o.op = "rremall"  -> Only([st EXCEPT !.reg.map = Nothing, !.reg.def = ""])
    [] o.op = "rpool"    -> Only(IF o.w \in 1..1024 THEN Replace(st, PoolSize(o)) ELSE st)
    [] o.op = "rnopool"  -> Only(Replace(st, <<>>))
    [] o.op = "rhold"    -> Only(IF st.reg.pool = 0 THEN st ELSE [st EXCEPT !.pools[st.reg.pool].held = TRUE])
    [] o.op = "rdrop"    -> Only([st EXCEPT !.pools = [p \in DOMAIN @ |-> [@[p] EXCEPT !.held = FALSE, !.up = @ /\ p = st.reg.pool]]])
    [] o.op = "rcreate"  -> Create(st, o)
    [] o.op \in {"rclose", "rexit"} -> Only(Close(st))
\* all possible results
Results(st, o) == IF o.op = "rflush" THEN {FlushIn(st, hs, <<>>) : hs \in FlushOrders(st)}
                  ELSE IF o.op \in RegOps THEN {RDo(st, o)} ELSE {Do(st, o)}
RegObs(st, names) ==
  [get |-> [n \in names |-> IF Known(st, n) THEN st.reg.map[n] ELSE ""], def |-> st.reg.def, all |-> Range(st.reg.map), count |-> Cardinality(DOMAIN st.reg.map),
   pool |-> IF st.reg.pool = 0 THEN [ty |-> "", q |-> 0, w |-> 0] ELSE [ty |-> st.pools[st.reg.pool].ty, q |-> st.pools[st.reg.pool].q, w |-> st.pools[st.reg.pool].w]]
=============================================================================

------------------------------ MODULE RegistryMC ------------------------------
(* A small registry explored exhaustively; its transitions are replayed in     *)
(* the real one.                                                               *)
EXTENDS Registry, Json
CONSTANT Kind                 \* "names": who is registered; "levels", "flush", "settings"
VARIABLES st, op
Now == Zero
O(name, h, nm, n) == [op |-> name, h |-> h, nm |-> nm, n |-> n, s |-> "s0", kind |-> "raw", now |-> Now, pid |-> 1, tid |-> "5000", pat |-> "", ty |-> "lock", q |-> 4, w |-> n]
RECURSIVE News(_, _)
News(s, hs) == IF hs = <<>> THEN s
               ELSE News(Do(s, [op |-> "new", h |-> Head(hs)[1], nm |-> Head(hs)[2], ss |-> <<"s0">>, as |-> Head(hs)[3]]).st, Tail(hs))
Loggers == IF Kind = "names" THEN <<<<"H1", "alpha", FALSE>>, <<"H2", "alpha", FALSE>>, <<"H3", "beta", TRUE>>>>
           ELSE <<<<"H1", "alpha", FALSE>>, <<"H2", "beta", FALSE>>>>
S0 == News(Do(StartState(Initial), O("sink", "", "", 0)).st, Loggers)
Hs == {Loggers[k][1] : k \in DOMAIN Loggers}
Global == IF Kind = "levels" THEN {"rglv"} ELSE IF Kind = "flush" THEN {"rgfl"} ELSE {"rglv", "rgfl"}
PerName == IF Kind = "levels" THEN {"rlv"} ELSE IF Kind = "flush" THEN {"rfl"} ELSE {"rlv", "rfl"}
Ops == {O("rreg", h, "", 0) : h \in Hs} \cup {O("rinit", h, "", 0) : h \in Hs} \cup {O("rrem", "", n, 0) : n \in {"alpha", "beta", "default_logger", "never"}}
       \cup {O("rauto", "", "", 0), O("rauto", "", "", 1)}
       \cup (IF Kind = "names" THEN {O("rdef", h, "", 0) : h \in Hs \cup {"D0"}} \cup {O(x, "", "", 0) : x \in {"rdefnone", "rremall", "rnopool", "rclose"}} \cup {O("rpool", "", "", n) : n \in {0, 1}}
             ELSE {O(x, "", "", n) : x \in Global, n \in {2, 3}} \cup {O(x, "", m, n) : x \in PerName, m \in {"alpha", "never"}, n \in {2, 3}})
Init == st = S0 /\ op = O("none", "", "", 0)
Next == \E o \in Ops : op' = o /\ st' = RDo(st, o).st
Spec == Init /\ [][Next]_<<st, op>>
PoolKind(s) == IF s.reg.pool = 0 THEN "" ELSE s.pools[s.reg.pool].ty
Key(s) == [map |-> s.reg.map, def |-> s.reg.def, glv |-> s.reg.glv, gfl |-> s.reg.gfl, auto |-> s.reg.auto, pool |-> PoolKind(s),
           lv |-> [h \in Hs |-> <<s.lg[h].lv, s.lg[h].fl>>]]
View == Key(st)
Holds(nm) == IF Known(st, nm) THEN st.reg.map[nm] ELSE ""
\* C11: names are unique, the default logger is a registered one, a taken name is refused and changes nothing
Names == /\ \A n \in DOMAIN st.reg.map : st.lg[st.reg.map[n]].nm = n
         /\ st.reg.def # "" => Holds(st.lg[st.reg.def].nm) = st.reg.def
         /\ \A h \in Hs : LET r == RDo(st, O("rreg", h, "", 0)) IN
              IF Known(st, st.lg[h].nm) THEN r.st = st /\ r.eff # <<>> ELSE r.eff = <<>> /\ r.st.reg.map[st.lg[h].nm] = h
         /\ \A n \in {"alpha", "beta", "never"} : LET r == RDo(st, O("rrem", "", n, 0)).st.reg IN
              /\ DOMAIN r.map = DOMAIN st.reg.map \ {n}
              /\ (r.def = "") = (st.reg.def = "" \/ st.lg[st.reg.def].nm = n)
         /\ \A h \in Hs : LET r == RDo(st, O("rdef", h, "", 0)).st.reg IN r.def = h /\ r.map[st.lg[h].nm] = h
         /\ RDo(st, O("rdefnone", "", "", 0)).st.reg.map = st.reg.map
\* C12: a global level is every registered logger's, and that of those initialised later
Levels == \A n \in {2, 3} : LET r == RDo(st, O("rglv", "", "", n)).st IN
             /\ \A h \in Range(st.reg.map) : r.lg[h].lv = n
             /\ \A h \in Hs \ Range(st.reg.map) : r.lg[h].lv = st.lg[h].lv
             /\ \A h \in Hs : RDo(r, O("rinit", h, "", 0)).st.lg[h].lv = n
\* C13: no asynchronous logger survives a change of pools, every other does
Pools == \A o \in {O("rpool", "", "", 1), O("rnopool", "", "", 0)} : LET r == RDo(st, o).st.reg IN
            /\ \A n \in DOMAIN st.reg.map : (n \in DOMAIN r.map) = ~st.lg[st.reg.map[n]].as
            /\ (r.def = "") = (st.reg.def = "" \/ st.lg[st.reg.def].as)
Emit == PrintT(<<"TR", ToJson(Key(st)), ToJson([op |-> op'.op, h |-> op'.h, nm |-> op'.nm, n |-> op'.n]), ToJson(Key(st'))>>)
=============================================================================

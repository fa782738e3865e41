------------------------------- MODULE LoggerMC -------------------------------
(* A small logger explored exhaustively: what Logger says about filtering,     *)
(* flushing and backtraces, in every state; the transitions are printed and    *)
(* replayed in real loggers.                                                   *)
EXTENDS Logger, Json
CONSTANTS Levels, Sizes
VARIABLES st, op
vars == <<st, op>>
Now == Zero
Msg(lv) == [txt |-> "m" \o ToString(lv), lv |-> lv, file |-> "", line |-> 0, fn |-> "", tid |-> "5000", day |-> 0, sod |-> 0, ns |-> 0]
S0 == LET a == Do(Initial, [op |-> "sink", s |-> "s0", kind |-> "raw", n |-> 0, now |-> Now]).st
          b == Do(a, [op |-> "sink", s |-> "s1", kind |-> "raw", n |-> 0, now |-> Now]).st
      IN Do(b, [op |-> "new", h |-> "L1", nm |-> "one", ss |-> <<"s0", "s1">>, as |-> FALSE]).st
O(name, n) == [op |-> name, h |-> "L1", s |-> "s1", n |-> n, now |-> Now, pid |-> 1, tid |-> "5000", err |-> "", m |-> Msg(n)]
Ops == {O("log", l) : l \in Levels} \cup {O("lv", l) : l \in Levels} \cup {O("fl", l) : l \in Levels} \cup {O("slv", l) : l \in Levels}
       \cup {O("enable", n) : n \in Sizes} \cup {O("disable", 0), O("dump", 0), O("flush", 0)}
Init == st = S0 /\ op = O("none", 0)
Next == \E o \in Ops : op' = o /\ st' = Do(st, o).st
Spec == Init /\ [][Next]_vars
View == st
L == st.lg["L1"]
Outs(eff, s) == SelectSeq(eff, LAMBDA e : e.k = "out" /\ e.s = s)
Flushed(eff) == SelectSeq(eff, LAMBDA e : e.k = "flush")
\* filtering, fan-out and flush level, said again without Do (C09)
Filtering ==
  \A l \in Levels : LET e == Do(st, O("log", l)).eff IN
    /\ Len(Outs(e, "s0")) = IF l >= L.lv THEN 1 ELSE 0
    /\ Len(Outs(e, "s1")) = IF l >= L.lv /\ l >= st.snk["s1"].lv THEN 1 ELSE 0
    /\ [k \in DOMAIN Flushed(e) |-> Flushed(e)[k].s] = IF l >= L.lv /\ l >= L.fl /\ l # OFF THEN <<"s0", "s1">> ELSE <<>>
    /\ \A j, k \in DOMAIN e : e[j].k = "flush" /\ e[k].k = "out" => k < j
\* a dump gives the markers around what is remembered, once (C08)
Dumping ==
  LET d == Do(st, O("dump", 0))
      e == Outs(d.eff, "s0")
      ms == IF L.tr = 0 THEN <<>> ELSE st.tr[L.tr].q
  IN /\ IF Tracing(st, "L1")
        THEN /\ Len(e) = Len(ms) + 2 /\ e[1].m.txt = StartMark /\ e[Len(e)].m.txt = EndMark
             /\ \A k \in DOMAIN ms : e[k + 1].m = ms[k]
        ELSE d.eff = <<>>
     /\ Outs(Do(d.st, O("dump", 0)).eff, "s0") = IF Tracing(st, "L1") THEN <<e[1], e[Len(e)]>> ELSE <<>>
Bounded == L.tr # 0 => /\ Len(st.tr[L.tr].q) <= st.tr[L.tr].n
                       /\ ~st.tr[L.tr].on => st.tr[L.tr].q = <<>>
\* every message, however low, is the newest one remembered
Newest == \A l \in Levels : Tracing(st, "L1") /\ st.tr[L.tr].n > 0 =>
            LET q == st.tr[L.tr].q  q2 == Do(st, O("log", l)).st.tr[L.tr].q IN
              q2[Len(q2)].lv = l /\ Len(q2) = Min(Len(q) + 1, st.tr[L.tr].n) /\ SubSeq(q, 1 + Len(q) + 1 - Len(q2), Len(q)) = SubSeq(q2, 1, Len(q2) - 1)
Key(x) == <<x.lg["L1"], x.snk["s1"].lv, x.tr>>
Emit == PrintT(<<"TR", ToJson(Key(st)), ToJson([op |-> op'.op, n |-> op'.n]), ToJson(Key(st'))>>)
=============================================================================

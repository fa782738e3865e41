------------------------------- MODULE ConsoleMC -------------------------------
(* A small console: a plain and a colour sink on stdout, a colour sink on      *)
(* stderr, some patterns, a changed colour. Explored exhaustively, replayed in *)
(* the real sinks in several environments.                                     *)
EXTENDS Console, Json, TLC
VARIABLES env, st, op, got
vars == <<env, st, op, got>>
CONSTANTS Terms, Pats
Envs == {[term |-> t, cterm |-> c, out |-> a, err |-> b] : t \in Terms, c \in {"-"}, a \in BOOLEAN, b \in BOOLEAN} \cup {[term |-> "-", cterm |-> "1", out |-> TRUE, err |-> FALSE]}
Msg(t, lv) == [nm |-> "n", txt |-> t, lv |-> lv, file |-> "", line |-> 0, fn |-> "", tid |-> "1", day |-> 1, sod |-> 0, ns |-> 0]
Blank == [op |-> "", hs |-> <<"a">>, kind |-> "", pat |-> "", eol |-> "\n", now |-> Zero, lv |-> 2, code |-> "", m |-> Msg("", 2), pid |-> 1]
Sinks == {"a", "b", "c"}
Ops == {[Blank EXCEPT !.op = "log", !.hs = h, !.lv = l, !.m = Msg("x", l)] : h \in {<<"a">>, <<"b">>, <<"c">>, <<"a", "b", "c">>, <<"b", "c">>}, l \in {2, 5}}
       \cup {[Blank EXCEPT !.op = "fmt", !.hs = <<h>>, !.pat = p] : h \in Sinks, p \in Pats}
       \cup {[Blank EXCEPT !.op = "flush", !.hs = <<h>>] : h \in Sinks}
       \cup {[Blank EXCEPT !.op = "color", !.hs = <<h>>, !.lv = 2, !.code = "<C>"] : h \in {"b", "c"}}
Init == /\ env \in Envs /\ op = Blank /\ got = [out |-> "", err |-> ""]
        /\ st = [Initial EXCEPT !.snk = [h \in Sinks |-> NewSink(env, CASE h = "a" -> "out" [] h = "b" -> "cout" [] OTHER -> "cerr")]]
\* the C library passes on all it has or as little as it may
Next == \E o \in Ops : \E b \in BOOLEAN :
          LET e == Effect(st, o) IN
          /\ got' = [s \in {"out", "err"} |-> IF b THEN e.all[s] ELSE SubSeq(e.all[s], 1, e.must[s])]
          /\ st' = After(env, [st EXCEPT !.pend = [s \in {"out", "err"} |-> Left(e, s, got'[s])]], o)
          /\ op' = o /\ UNCHANGED env
Spec == Init /\ [][Next]_vars
\* without the codes the record is what the formatter made
RECURSIVE Drop(_, _)
Drop(x, code) == IF Len(x) < Len(code) THEN x ELSE IF SubSeq(x, 1, Len(code)) = code THEN Drop(SubSeq(x, Len(code) + 1, Len(x)), code) ELSE SubSeq(x, 1, 1) \o Drop(SubSeq(x, 2, Len(x)), code)
Faithful == \A h \in Sinks, l \in {2, 5} : LET s == st.snk[h] r == Format(s.fmt, Msg("x", l), 1) IN
              /\ Drop(Drop(Output(s, Msg("x", l), 1), s.col[l]), Reset) = r.txt
              /\ h = "a" \/ ~Colourful(env) => Output(s, Msg("x", l), 1) = r.txt
              /\ (h = "b" /\ ~env.out) \/ (h = "c" /\ ~env.err) => Output(s, Msg("x", l), 1) = r.txt
\* a stream gets nothing from sinks of the other
Own == [][\A s \in {"out", "err"} : (op'.op # "flush" /\ \A k \in DOMAIN op'.hs : st.snk[op'.hs[k]].stream # s) => st'.pend[s] \o got'[s] = st.pend[s] \/ got'[s] \o st'.pend[s] = st.pend[s]]_vars
\* after a plain sink's call nothing is held back on its stream
Prompt == [][op'.op = "log" /\ op'.hs = <<"a">> => st'.pend.out = ""]_vars
Bounded == Len(st.pend.out) + Len(st.pend.err) < 30
View == <<env, [h \in Sinks |-> [p |-> st.snk[h].fmt.pat, c |-> st.snk[h].col[2]]], st.pend.out = "", st.pend.err = "">>
\* for the walks: without the environment (each walk runs in several)
Key(s) == [h \in Sinks |-> [p |-> s.snk[h].fmt.pat, c |-> s.snk[h].col[2]]]
Emit == env = [term |-> "dumb", cterm |-> "-", out |-> FALSE, err |-> FALSE] =>
          PrintT(<<"TR", ToJson(Key(st)), ToJson([op |-> op'.op, hs |-> op'.hs, pat |-> op'.pat, lv |-> op'.lv, code |-> op'.code]), ToJson(Key(st'))>>)
=============================================================================

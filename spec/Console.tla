------------------------------- MODULE Console -------------------------------
(* Console sinks (C20): what a record becomes on its stream.                 *)
(*   env:  [term, cterm ("-": not set), out, err: is the stream a terminal]  *)
(*   st:   [snk: handle -> [stream, paints, fmt, col: level -> code],        *)
(*          pend: stream -> bytes the C library still holds]                 *)
EXTENDS Pattern, FiniteSets

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nothing == [x \in {} |-> 0]
CONSTANT ESC       \* the escape character (TLA+ has no such literal)
Code(x) == ESC \o "[" \o x \o "m"
Reset == Code("")
DefaultColors == [k \in 0..6 |-> CASE k = 0 -> Code("37") [] k = 1 -> Code("36") [] k = 2 -> Code("32") [] k = 3 -> Code("33") \o Code("1")
                                   [] k = 4 -> Code("31") \o Code("1") [] k = 5 -> Code("1") \o Code("41") [] OTHER -> Reset]
ColorTerms == {"ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102"}
Within(t, x) == \E k \in 0..(Len(t) - Len(x)) : SubSeq(t, k + 1, k + Len(x)) = x
Colourful(env) == env.cterm # "-" \/ (env.term # "-" /\ \E x \in ColorTerms : Within(env.term, x))
Terminal(env, s) == IF s = "out" THEN env.out ELSE env.err

StreamOf(kind) == IF kind \in {"out", "cout"} THEN "out" ELSE "err"
NewSink(env, kind) == [stream |-> StreamOf(kind), flushes |-> kind \in {"out", "err"},
                       paints |-> kind \in {"cout", "cerr"} /\ Terminal(env, StreamOf(kind)) /\ Colourful(env),
                       fmt |-> NewFormatter("%+", "\n", Nothing, Zero), col |-> DefaultColors]
\* the record with its marked range [cs, ce) coloured
Colour(r, code) == SubSeq(r.txt, 1, r.cs) \o code \o SubSeq(r.txt, r.cs + 1, r.ce) \o Reset \o SubSeq(r.txt, r.ce + 1, Len(r.txt))
Paint(s, r, lv) == IF s.paints /\ r.ce > r.cs THEN Colour(r, s.col[lv]) ELSE r.txt
Output(s, m, pid) == Paint(s, Format(s.fmt, m, pid), m.lv)

Initial == [snk |-> Nothing, pend |-> [out |-> "", err |-> ""]]
\* all that is to come on each stream, and how much of it must have come when the call returns
RECURSIVE Through(_, _, _, _, _)
Through(st, hs, m, pid, a) ==
  IF hs = <<>> THEN a
  ELSE LET s == st.snk[Head(hs)]
           x == a.all[s.stream] \o Output(s, m, pid)
       IN Through(st, Tail(hs), m, pid, [a EXCEPT !.all[s.stream] = x, !.must[s.stream] = IF s.flushes THEN Len(x) ELSE @])
Held(st) == [all |-> st.pend, must |-> [out |-> 0, err |-> 0]]
Flushed(st, hs) == [all |-> st.pend, must |-> [s \in {"out", "err"} |-> IF \E k \in DOMAIN hs : st.snk[hs[k]].stream = s THEN Len(st.pend[s]) ELSE 0]]
Effect(st, o) ==
  CASE o.op = "log" -> Through(st, o.hs, o.m, o.pid, Held(st))
    [] o.op = "flush" -> Flushed(st, o.hs)
    [] OTHER -> Held(st)
After(env, st, o) ==
  CASE o.op \in {"sink", "fac"} -> [st EXCEPT !.snk = Put(@, o.hs[1], NewSink(env, o.kind))]
    [] o.op = "fmt" -> [st EXCEPT !.snk = [h \in DOMAIN @ |-> IF \E k \in DOMAIN o.hs : o.hs[k] = h THEN [@[h] EXCEPT !.fmt = NewFormatter(o.pat, o.eol, Nothing, o.now)] ELSE @[h]]]
    [] o.op = "log" -> [st EXCEPT !.snk = [h \in DOMAIN @ |-> IF \E k \in DOMAIN o.hs : o.hs[k] = h THEN [@[h] EXCEPT !.fmt = Used(@, o.m)] ELSE @[h]]]
    [] o.op = "color" -> [st EXCEPT !.snk[o.hs[1]].col[o.lv] = o.code]
    [] OTHER -> st
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Shows(e, s, got) == IsPrefix(got, e.all[s]) /\ Len(got) >= e.must[s]
Left(e, s, got) == SubSeq(e.all[s], Len(got) + 1, Len(e.all[s]))
=============================================================================

--------------------------- MODULE FormatterTrace ---------------------------
(* Recorded runs of pattern_formatter against Pattern: every formatter made, *)
(* copied or changed, and the text and marked range of every formatting.     *)
EXTENDS Pattern, TraceLib
VARIABLES tr, i, fs
vars == <<tr, i, fs>>
T == Traces[tr]
E == T.ev[i]
Set(f, x) == [k \in DOMAIN fs \cup {f} |-> IF k = f THEN x ELSE fs[k]]
NoFlags == [c \in {} |-> {}]
Init == tr \in DOMAIN Traces /\ i = 1 /\ fs = [f \in {} |-> {}]
Fmt == LET f == fs[E.f] IN
       IF Raises(f) THEN E.err = "flag " \o f.toks[RaisesAt(f)].tag
       ELSE LET r == Format(f, E.m, E.pid) IN E.err = "" /\ E.txt = r.txt /\ E.cs = r.cs /\ E.ce = r.ce
Next == /\ i <= Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tr
        /\ \/ E.e = "new" /\ fs' = Set(E.f, NewFormatter(E.pat, E.eol, NoFlags, E.now))
           \/ E.e = "clone" /\ fs' = Set(E.f, Clone(fs[E.g], E.now))
           \/ E.e = "setpat" /\ fs' = Set(E.f, NewFormatter(E.pat, fs[E.f].eol, fs[E.f].cust, E.now))
           \/ E.e = "flag" /\ LET o == fs[E.f].cust IN
                fs' = Set(E.f, [fs[E.f] EXCEPT !.cust = [c \in DOMAIN o \cup {E.c} |-> IF c = E.c THEN [tag |-> E.tag, bad |-> E.bad] ELSE o[c]]])
           \/ E.e = "fmt" /\ Fmt /\ fs' = Set(E.f, Used(fs[E.f], E.m))
           \/ E.e = "end" /\ UNCHANGED fs
Spec == Init /\ [][Next]_vars
Progress == Mark(tr, i, Len(T.ev))
=============================================================================

------------------------------ MODULE PatternMC ------------------------------
(* Facts about the pattern language itself, checked exhaustively: the       *)
(* calendar day by day from 1677 until 2262 (the range of the clock), and   *)
(* all patterns over a small alphabet (which are also printed and given to  *)
(* the real formatter).                                                     *)
EXTENDS Pattern, FiniteSets, Json
CONSTANTS Alphabet, MaxLen, FirstDay, LastDay, Mode
VARIABLES day, pat
vars == <<day, pat>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Succ(c) == IF c.d < DaysIn(c.y, c.m) THEN [c EXCEPT !.d = @ + 1, !.w = (@ + 1) % 7]
           ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1, w |-> (c.w + 1) % 7]
           ELSE [y |-> c.y + 1, m |-> 1, d |-> 1, w |-> (c.w + 1) % 7]
Init == day \in {0, -FirstDay} /\ pat = ""
NextDay == pat = "" /\ day < LastDay /\ day' = day + 1 /\ UNCHANGED pat
Longer == day = 0 /\ Len(pat) < MaxLen /\ \E c \in Alphabet : pat' = pat \o c /\ UNCHANGED day
Next == NextDay \/ Longer
Spec == Init /\ [][Next]_vars
Calendar == /\ Civil(0) = [y |-> 1970, m |-> 1, d |-> 1, w |-> 4]
            /\ Civil(day + 1) = Succ(Civil(day))

M == [nm |-> "nm", txt |-> "hello", lv |-> 2, file |-> "f.cpp", line |-> 7, fn |-> "g", tid |-> "3", day |-> 20000, sod |-> 3661, ns |-> 5]
F == NewFormatter(pat, "\n", <<>>, Zero)
Cont == {k \in 1..Len(pat) : At(pat, k) = "%"}
Count(p, s) == Cardinality({k \in 1..Len(p) : At(p, k) = s})
\* text without '%' is copied; every character of a pattern ends up in at most one token; widths are kept
Sane == /\ Cont = {} => Format(F, M, 1).txt = pat \o "\n"
        /\ Len(F.toks) <= Len(pat)
        /\ \A k \in DOMAIN F.toks : F.toks[k].sp.on /\ F.toks[k].k = "flag" /\ F.toks[k].c = "v" =>
              LET t == TokText(F, k, M, 1) IN
                /\ Len(t) >= F.toks[k].sp.w
                /\ F.toks[k].sp.cut => Len(t) = F.toks[k].sp.w
                /\ ~F.toks[k].sp.cut => Len(t) = IF F.toks[k].sp.w > 5 THEN F.toks[k].sp.w ELSE 5
        \* a pattern put after another one that leaves no flag open gives both texts
        /\ (pat # "" /\ At(pat, Len(pat)) # "%") =>
              LET G == NewFormatter(pat \o "|" \o pat, "", <<>>, Zero) IN
                ParseFrom(pat \o "|", 1) = Parse(pat) \o <<[k |-> "lit", c |-> "|", sp |-> Plain]>> =>
                  Format(G, M, 1).txt = Format([F EXCEPT !.eol = ""], M, 1).txt \o "|" \o Format([F EXCEPT !.eol = ""], M, 1).txt
Emit == Mode # "print" \/ day # 0 \/ PrintT(<<"PAT", ToJson(pat)>>)
=============================================================================

------------------------------- MODULE Pattern -------------------------------
(* The pattern language of the formatters: what every pattern makes of      *)
(* every message. A message is                                              *)
(*   [nm, txt, lv, file, line, fn, tid, day, sod, ns]                       *)
(* with its local time as days since 1970-01-01, second of day, nanosecond; *)
(* tid is the decimal text of the thread id.                                *)
EXTENDS Integers, Sequences, TLC

At(s, k) == SubSeq(s, k, k)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))
Blanks == "                                                                "
Zeros  == "000000000"
MaxWidth == Len(Blanks)
Min(a, b) == IF a < b THEN a ELSE b

\* --------------------------------------------------------------- calendar
Civil(day) ==
  LET z   == day + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1, w |-> (day + 4) % 7]
WeekdayName == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonthName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
LevelName == <<"trace", "debug", "info", "warn", "error", "critical", "off">>

\* a number with at least w digits
Num(n, w) == LET s == ToString(n) IN IF Len(s) < w THEN SubSeq(Zeros, 1, w - Len(s)) \o s ELSE s
Hms(m) == Num(m.sod \div 3600, 2) \o ":" \o Num((m.sod \div 60) % 60, 2) \o ":" \o Num(m.sod % 60, 2)

\* a later than b: elapsed time as [s, ns], never negative
Elapsed(a, b) ==
  LET ds == (a.day - b.day) * 86400 + (a.sod - b.sod)
      dn == a.ns - b.ns
      s  == IF dn < 0 THEN ds - 1 ELSE ds
      n  == IF dn < 0 THEN dn + 1000000000 ELSE dn
  IN IF s < 0 THEN [s |-> 0, ns |-> 0] ELSE [s |-> s, ns |-> n]
InUnit(e, flag) ==
  LET sub == CASE flag = "W" -> e.ns [] flag = "X" -> e.ns \div 1000 [] flag = "Y" -> e.ns \div 1000000 [] OTHER -> 0
      dig == CASE flag = "W" -> 9 [] flag = "X" -> 6 [] flag = "Y" -> 3 [] OTHER -> 0
  IN IF flag = "Z" THEN ToString(e.s) ELSE IF e.s = 0 THEN ToString(sub) ELSE ToString(e.s) \o Num(sub, dig)

\* ---------------------------------------------------------------- parsing
Plain == [on |-> FALSE, w |-> 0, side |-> "left", cut |-> FALSE]
\* digits at k, value capped (everything above MaxWidth is MaxWidth): <<next position, value>>
RECURSIVE Width(_, _, _)
Width(p, k, v) == IF k <= Len(p) /\ At(p, k) \in Digits THEN Width(p, k + 1, Min(v * 10 + DigitVal(At(p, k)), 1000)) ELSE <<k, v>>
\* the padding between '%' (before k) and the flag: <<position of the flag, padding>>
Padding(p, k) ==
  IF k > Len(p) THEN <<k, Plain>>
  ELSE LET side == CASE At(p, k) = "-" -> "right" [] At(p, k) = "=" -> "center" [] OTHER -> "left"
           k1   == IF side = "left" THEN k ELSE k + 1
       IN IF k1 > Len(p) \/ At(p, k1) \notin Digits THEN <<k1, Plain>>
          ELSE LET wd  == Width(p, k1, 0)
                   cut == wd[1] <= Len(p) /\ At(p, wd[1]) = "!"
               IN <<IF cut THEN wd[1] + 1 ELSE wd[1], [on |-> TRUE, w |-> Min(wd[2], MaxWidth), side |-> side, cut |-> cut]>>
RECURSIVE ParseFrom(_, _)
ParseFrom(p, k) ==
  IF k > Len(p) THEN <<>>
  ELSE IF At(p, k) # "%" THEN <<[k |-> "lit", c |-> At(p, k), sp |-> Plain]>> \o ParseFrom(p, k + 1)
  ELSE LET q == Padding(p, k + 1) IN
       IF q[1] > Len(p) THEN <<>>                     \* an unfinished flag at the end gives nothing
       ELSE <<[k |-> "flag", c |-> At(p, q[1]), sp |-> q[2]]>> \o ParseFrom(p, q[1] + 1)
Parse(p) == ParseFrom(p, 1)

\* ------------------------------------------------------------------ values
TimerFlags == {"W", "X", "Y", "Z"}
KnownFlags == {"+", "n", "l", "a", "b", "c", "y", "m", "d", "H", "M", "S", "E", "F", "G", "T", "p", "t", "v", "^", "$", "@", "A", "B", "C", "%"} \cup TimerFlags
Full(m) ==
  LET c == Civil(m.day) IN
  "[" \o Num(c.y, 4) \o "-" \o Num(c.m, 2) \o "-" \o Num(c.d, 2) \o " " \o Hms(m) \o "." \o Num(m.ns \div 1000000, 3) \o "] "
  \o (IF m.nm = "" THEN "" ELSE "[" \o m.nm \o "] ")
FullLevelAt(m) == Len(Full(m)) + 1
FullText(m) ==
  Full(m) \o "[" \o LevelName[m.lv + 1] \o "] "
  \o (IF m.line <= 0 THEN "" ELSE "[" \o m.file \o ":" \o Num(m.line, 5) \o "] ") \o m.txt
\* the value of a flag without state
Value(c, m, pid) ==
  LET d == Civil(m.day) IN
  CASE c = "n" -> m.nm
    [] c = "l" -> LevelName[m.lv + 1]
    [] c = "a" -> WeekdayName[d.w + 1]
    [] c = "b" -> MonthName[d.m]
    [] c = "c" -> WeekdayName[d.w + 1] \o " " \o MonthName[d.m] \o " " \o Num(d.d, 2) \o " " \o Hms(m) \o " " \o Num(d.y, 4)
    [] c = "y" -> Num(d.y, 4)
    [] c = "m" -> Num(d.m, 2)
    [] c = "d" -> Num(d.d, 2)
    [] c = "H" -> Num(m.sod \div 3600, 2)
    [] c = "M" -> Num((m.sod \div 60) % 60, 2)
    [] c = "S" -> Num(m.sod % 60, 2)
    [] c = "E" -> Num(m.ns \div 1000000, 3)
    [] c = "F" -> Num(m.ns \div 1000, 6)
    [] c = "G" -> Num(m.ns, 9)
    [] c = "T" -> Hms(m)
    [] c = "p" -> ToString(pid)
    [] c = "t" -> m.tid
    [] c = "v" -> m.txt
    [] c = "@" -> IF m.line <= 0 THEN "" ELSE m.file \o ":" \o ToString(m.line)
    [] c = "A" -> IF m.line <= 0 THEN "" ELSE m.file
    [] c = "B" -> IF m.line <= 0 THEN "" ELSE ToString(m.line)
    [] c = "C" -> IF m.line <= 0 THEN "" ELSE m.fn
Pad(s, sp) ==
  IF ~sp.on THEN s
  ELSE IF Len(s) >= sp.w THEN (IF sp.cut THEN SubSeq(s, 1, sp.w) ELSE s)
  ELSE LET n == sp.w - Len(s) IN
       CASE sp.side = "left"  -> SubSeq(Blanks, 1, n) \o s
         [] sp.side = "right" -> s \o SubSeq(Blanks, 1, n)
         [] OTHER -> SubSeq(Blanks, 1, n \div 2) \o s \o SubSeq(Blanks, 1, n - n \div 2)

\* -------------------------------------------------------------- formatters
(* A formatter: [pat, eol, cust, toks, st] with custom flags (character ->  *)
(* what it stands for: [tag, bad]) and per token its state: the time of the *)
(* previous message (timer flags), the number of uses (custom flags).       *)
Zero == [day |-> 0, sod |-> 0, ns |-> 0]
Bind(toks, cust) == [k \in DOMAIN toks |->
   IF toks[k].k = "flag" /\ toks[k].c \in DOMAIN cust
   THEN [k |-> "cust", c |-> toks[k].c, sp |-> toks[k].sp, tag |-> cust[toks[k].c].tag, bad |-> cust[toks[k].c].bad]
   ELSE [k |-> toks[k].k, c |-> toks[k].c, sp |-> toks[k].sp, tag |-> "", bad |-> FALSE]]
NewFormatter(pat, eol, cust, now) ==
  LET t == Bind(Parse(pat), cust) IN
  [pat |-> pat, eol |-> eol, cust |-> cust, toks |-> t, st |-> [k \in DOMAIN t |-> [at |-> now, n |-> 0]]]
Clone(f, now) == NewFormatter(f.pat, f.eol, f.cust, now)

\* the text of token k of f, and the colour marks it sets
TokText(f, k, m, pid) ==
  LET t == f.toks[k] IN
  CASE t.k = "lit" -> t.c
    [] t.k = "cust" -> IF t.bad THEN "" ELSE Pad(t.tag \o "#" \o ToString(f.st[k].n + 1), t.sp)
    [] t.c = "%" -> "%"
    [] t.c \in {"^", "$"} -> ""
    [] t.c = "+" -> FullText(m)
    [] t.c \in TimerFlags -> Pad(InUnit(Elapsed(m, f.st[k].at), t.c), t.sp)
    [] t.c \in KnownFlags -> Pad(Value(t.c, m, pid), t.sp)
    [] OTHER -> "%" \o t.c
\* a custom flag that raises: nothing more is formatted, its text is the error
Raises(f) == \E k \in DOMAIN f.toks : f.toks[k].k = "cust" /\ f.toks[k].bad
RaisesAt(f) == CHOOSE k \in DOMAIN f.toks : /\ f.toks[k].k = "cust" /\ f.toks[k].bad
                                            /\ \A j \in 1..(k - 1) : ~(f.toks[j].k = "cust" /\ f.toks[j].bad)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(f, k, m, pid, txt, cs, ce) ==
  IF k > Len(f.toks) THEN [txt |-> txt, cs |-> cs, ce |-> ce]
  ELSE LET t == f.toks[k]
           is(c) == t.k = "flag" /\ t.c = c
           lv == Len(txt) + FullLevelAt(m)
       IN Walk(f, k + 1, m, pid, txt \o TokText(f, k, m, pid),
               IF is("^") THEN Len(txt) ELSE IF is("+") THEN lv ELSE cs,
               IF is("$") THEN Len(txt) ELSE IF is("+") THEN lv + Len(LevelName[m.lv + 1]) ELSE ce)
\* [txt, cs, ce]: the record and its marked range
Format(f, m, pid) == LET w == Walk(f, 1, m, pid, "", 0, 0) IN [txt |-> w.txt \o f.eol, cs |-> w.cs, ce |-> w.ce]
\* the state of f after formatting m (up to the flag that raises, if any)
Used(f, m) ==
  LET last == IF Raises(f) THEN RaisesAt(f) - 1 ELSE Len(f.toks) IN
  [f EXCEPT !.st = [k \in DOMAIN f.toks |-> IF k <= last THEN [at |-> [day |-> m.day, sod |-> m.sod, ns |-> m.ns], n |-> f.st[k].n + 1] ELSE f.st[k]]]
=============================================================================

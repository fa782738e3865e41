-------------------------------- MODULE Files --------------------------------
(* File sinks and the directory tree they write to (C15, C16).               *)
(*                                                                           *)
(* The state is a record                                                     *)
(*   dirs:  the directories (canonical paths; "" is the scratch directory)   *)
(*   names: path -> file number        data: file number -> bytes on disk    *)
(*   snk:   handle -> [kind ("file"/"roll"), path, ino (0: no open file,     *)
(*          -1: the device that is always full), pend (bytes not yet on      *)
(*          disk), fmt, max, num, idx, cur (bytes in the current file)]      *)
(* Outcomes(st, o) is the set of what operation o may do: [st, lo, hi] with  *)
(* between lo and hi errors. o.fault = [fn, fired]: a call the environment   *)
(* made fail, and how often it failed during o.                              *)
EXTENDS Pattern, FiniteSets

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [x \in {} |-> 0]
Tries == 5
Initial == [dirs |-> {""}, names |-> Nothing, data |-> Nothing, snk |-> Nothing]

\* ------------------------------------------------------------------- paths
RECURSIVE LastIn(_, _, _)     \* position of the last c in s at or before k (0: none)
LastIn(s, c, k) == IF k = 0 THEN 0 ELSE IF At(s, k) = c THEN k ELSE LastIn(s, c, k - 1)
DirOf(path) == LET k == LastIn(path, "/", Len(path)) IN SubSeq(path, 1, k)
FileOf(path) == LET k == LastIn(path, "/", Len(path)) IN SubSeq(path, k + 1, Len(path))
RECURSIVE Split(_, _)
Split(s, cur) == IF s = "" THEN <<cur>> ELSE IF At(s, 1) = "/" THEN <<cur>> \o Split(SubSeq(s, 2, Len(s)), "") ELSE Split(SubSeq(s, 2, Len(s)), cur \o At(s, 1))
Under(dir, c) == IF dir = "" THEN c ELSE dir \o "/" \o c
UpFrom(dir) == LET k == LastIn(dir, "/", Len(dir)) IN IF k = 0 THEN "" ELSE SubSeq(dir, 1, k - 1)
LongName(c) == Len(c) > 255
\* "@" at the start of a path stands for the absolute path of the scratch directory
\* going down from cur, missing directories are made: [ok, cur, new (those made, in order)]
RECURSIVE Descend(_, _, _, _)
Descend(st, cs, cur, new) ==
  IF cs = <<>> THEN [ok |-> TRUE, cur |-> cur, new |-> new]
  ELSE LET c == Head(cs)
           d == Under(cur, c)
       IN CASE c \in {"", ".", "@"} -> Descend(st, Tail(cs), cur, new)
            [] c = ".." -> Descend(st, Tail(cs), UpFrom(cur), new)
            [] d \in st.dirs \/ (\E k \in DOMAIN new : new[k] = d) -> Descend(st, Tail(cs), d, new)
            [] d \in DOMAIN st.names \/ LongName(c) -> [ok |-> FALSE, cur |-> cur, new |-> new]
            [] OTHER -> Descend(st, Tail(cs), d, Append(new, d))
Parents(st, path) == Descend(st, Split(DirOf(path), ""), "", <<>>)
\* the path as it resolves in the present tree ("": not there, or nothing that could be)
Look(st, path) ==
  LET p == Parents(st, path)
      f == FileOf(path)
  IN IF ~p.ok \/ p.new # <<>> THEN [there |-> FALSE]
     ELSE IF f = "" \/ f = "." THEN [there |-> p.cur \in st.dirs]
     ELSE IF f = ".." THEN [there |-> TRUE]
     ELSE [there |-> Under(p.cur, f) \in st.dirs \cup DOMAIN st.names]
\* the file a path leads to once its parents are there ("" : none can be)
Target(st, path) ==
  LET p == Parents(st, path)
      f == FileOf(path)
  IN IF ~p.ok \/ f \in {"", ".", ".."} \/ LongName(f) \/ Under(p.cur, f) \in st.dirs \cup {p.new[k] : k \in DOMAIN p.new} THEN "" ELSE Under(p.cur, f)
RangeOf(s) == {s[k] : k \in DOMAIN s}

\* ------------------------------------------------------------------ opening
\* [ok, st, ino]: tried Tries times; fault as above
NewIno(st) == Cardinality(DOMAIN st.data) + 1
OpenAt(st, t, trunc) ==      \* file t can be opened in st (its directory exists)
  IF t \in DOMAIN st.names
  THEN [ok |-> TRUE, ino |-> st.names[t], st |-> IF trunc THEN [st EXCEPT !.data[st.names[t]] = ""] ELSE st]
  ELSE [ok |-> TRUE, ino |-> NewIno(st), st |-> [st EXCEPT !.names = Put(@, t, NewIno(st)), !.data = Put(@, NewIno(st), "")]]
\* some of the missing parents made
Partly(st, p) == {[ok |-> FALSE, ino |-> 0, st |-> [st EXCEPT !.dirs = @ \cup {p.new[k] : k \in 1..n}]] : n \in 0..Len(p.new)}
Open(st, path, trunc, fault) ==
  LET p == Parents(st, path)
      t == Target(st, path)
      withdirs == [st EXCEPT !.dirs = @ \cup RangeOf(p.new)]
      gone == fault.fn \in {"open", "fdopen", "mkdir"} /\ fault.fired >= Tries
  IN IF path = "@full" /\ gone THEN {[ok |-> FALSE, ino |-> 0, st |-> st]}
     ELSE IF path = "@full" THEN {[ok |-> TRUE, ino |-> -1, st |-> st]}
     ELSE IF t = "" THEN Partly(st, p)
     ELSE IF gone THEN Partly(st, p) \cup (IF fault.fn = "fdopen" THEN {[OpenAt(withdirs, t, trunc) EXCEPT !.ok = FALSE, !.ino = 0]} ELSE {})
     ELSE {OpenAt(withdirs, t, trunc)}

\* ------------------------------------------------------------ rolling files
\* the name of file number i: the number before the extension of the file's name (from its last dot, unless it starts with it)
RollName(base, i, num) ==
  LET f == FileOf(base)
      k == LastIn(f, ".", Len(f))
      stem == IF k <= 1 THEN f ELSE SubSeq(f, 1, k - 1)
      ext  == IF k <= 1 THEN "" ELSE SubSeq(f, k, Len(f))
  IN DirOf(base) \o stem \o "_" \o Num(i, Len(ToString(num))) \o ext
\* the first free number from i on, the last if none is
RECURSIVE FirstFree(_, _, _, _)
FirstFree(st, base, i, num) == IF i >= num \/ ~Look(st, RollName(base, i, num)).there THEN i ELSE FirstFree(st, base, i + 1, num)
MaxNum == 10000

\* -------------------------------------------------------------------- sinks
\* what handle h still has to write is written
Settle(st, h) == LET s == st.snk[h] IN
  IF s.ino <= 0 THEN st ELSE [st EXCEPT !.data[s.ino] = @ \o s.pend, !.snk[h].pend = ""]
Good(st) == {[st |-> st, lo |-> 0, hi |-> 0]}
Bad(st) == {[st |-> st, lo |-> 1, hi |-> 1]}
NewSink(kind, path, ino, max, num, idx) == [kind |-> kind, path |-> path, ino |-> ino, pend |-> "", fmt |-> NewFormatter("%+", "\n", Nothing, Zero),
                                            max |-> max, num |-> num, idx |-> idx, cur |-> 0]
OpenFile(st, o) ==
  UNION {IF r.ok THEN Good([r.st EXCEPT !.snk = Put(@, o.h, NewSink("file", o.path, r.ino, 0, 0, 0))]) ELSE Bad(r.st) : r \in Open(st, o.path, o.trunc, o.fault)}
OpenRoll(st, o) ==
  IF o.max = 0 \/ o.num > MaxNum THEN Bad(st)
  ELSE LET i == FirstFree(st, o.path, 1, o.num) IN
       UNION {IF r.ok THEN Good([r.st EXCEPT !.snk = Put(@, o.h, NewSink("roll", o.path, r.ino, o.max, o.num, i))]) ELSE Bad(r.st) : r \in Open(st, RollName(o.path, i, o.num), TRUE, o.fault)}

\* the current file of h is left, the next one started: a set of [ok, st]
Closed(st, h) == [Settle(st, h) EXCEPT !.snk[h].ino = 0, !.snk[h].pend = ""]
Roll(st, h, fault) ==
  LET c == Closed(st, h)
      s == st.snk[h]
      i == FirstFree(c, s.path, s.idx, s.num)
      d == [c EXCEPT !.snk[h].idx = i, !.snk[h].cur = 0]
  IN (IF fault.fn = "fclose" /\ fault.fired > 0 THEN {[ok |-> FALSE, st |-> c]} ELSE {}) \cup
     (IF fault.fn = "fclose" /\ fault.fired > 0 /\ s.ino # 0 THEN {} ELSE      \* (closing the handle that emptied the new file may fail unheard)
      {[ok |-> r.ok, st |-> [r.st EXCEPT !.snk[h].ino = r.ino]] : r \in Open(d, RollName(s.path, i, s.num), TRUE, fault)})
\* writing record x, or nothing or the part that the failing call took
Parts(x, cut) == {"", SubSeq(x, 1, IF cut < Len(x) THEN cut ELSE IF x = "" THEN 0 ELSE Len(x) - 1)}
Write(st, h, x, fault) ==
  IF fault.fn = "fwrite" /\ fault.fired > 0 /\ x # ""
  THEN UNION {Bad([st EXCEPT !.snk[h].pend = @ \o p]) : p \in Parts(x, fault.cut)}
  ELSE Good([st EXCEPT !.snk[h].pend = @ \o x, !.snk[h].cur = @ + Len(x)])
TooBig(s, x) == s.kind = "roll" /\ s.cur > 0 /\ s.cur + Len(x) > s.max
Log(st, h, x, fault) ==
  LET s == st.snk[h] IN
  IF s.ino = 0 \/ TooBig(s, x)
  THEN UNION {IF r.ok THEN Write(r.st, h, x, fault) \cup (IF fault.fn = "fflush" /\ fault.fired > 0 THEN Bad(r.st) ELSE {}) ELSE Bad(r.st) : r \in Roll(st, h, fault)}
       \cup (IF fault.fn = "fflush" /\ fault.fired > 0 THEN Bad(st) ELSE {})
  ELSE Write(st, h, x, fault) \cup (IF fault.fn = "fflush" /\ fault.fired > 0 THEN Bad(st) ELSE {})
Flush(st, h, fault) ==
  LET s == st.snk[h] IN
  CASE fault.fn = "fflush" /\ fault.fired > 0 -> Bad(st)
    [] s.ino = -1 -> IF s.pend = "" THEN Good(st) ELSE Bad(st) \cup Bad([st EXCEPT !.snk[h].pend = ""])    \* the C library may give up the bytes
    [] OTHER -> Good(Settle(st, h))
\* closing flushes; every failure on the way is reported
Drop(st, h, fault) ==
  LET s == st.snk[h]
      r == [Settle(st, h) EXCEPT !.snk = Rem(@, h)]
  IN IF s.ino = -1 THEN {[st |-> r, lo |-> IF s.pend = "" THEN 0 ELSE 1, hi |-> 2]}
     ELSE IF fault.fired = 0 THEN Good(r)
     ELSE IF fault.fn = "fclose" THEN Bad(r)
     ELSE {[st |-> r, lo |-> 0, hi |-> 1]}

\* ----------------------------------------- what others do in the directory
ExtWrite(st, p, x) == IF p \in DOMAIN st.names THEN [st EXCEPT !.data[st.names[p]] = @ \o x]
                      ELSE [st EXCEPT !.names = Put(@, p, NewIno(st)), !.data = Put(@, NewIno(st), x)]
ExtMove(st, p, q) == IF p \notin DOMAIN st.names THEN st ELSE [st EXCEPT !.names = Put(Rem(@, p), q, st.names[p])]

Record(st, h, m, pid) == Format(st.snk[h].fmt, m, pid).txt
Outsiders == {"mkdir", "write", "make", "rm", "mv"}
Outcomes(st, o) ==
  CASE o.op \in Outsiders /\ ~o.done -> Good(st)
    [] o.op = "open" -> IF o.kind = "file" THEN OpenFile(st, o) ELSE OpenRoll(st, o)
    [] o.op = "log" -> Log(st, o.h, Record(st, o.h, o.m, o.pid), o.fault)
    [] o.op = "fmt" -> Good([st EXCEPT !.snk[o.h].fmt = NewFormatter(o.pat, o.eol, Nothing, Zero)])
    [] o.op = "flush" -> Flush(st, o.h, o.fault)
    [] o.op = "drop" -> Drop(st, o.h, o.fault)
    [] o.op = "mkdir" -> Good([st EXCEPT !.dirs = @ \cup {o.p}])
    [] o.op \in {"write", "make"} -> Good(ExtWrite(st, o.p, o.txt))
    [] o.op = "rm" -> Good([st EXCEPT !.names = Rem(@, o.p)])
    [] o.op = "mv" -> Good(ExtMove(st, o.p, o.q))
    [] o.op = "ls" -> Good(st)
\* what may be left when the process ends in the middle of o
Midway(st, o) ==
  {st} \cup {r.st : r \in Outcomes(st, o)}
  \cup (IF o.op = "open" /\ (o.kind = "file" \/ (o.max > 0 /\ o.num <= MaxNum)) /\ o.path # "@full" THEN
          LET path == IF o.kind = "file" THEN o.path ELSE RollName(o.path, FirstFree(st, o.path, 1, o.num), o.num) IN {r.st : r \in Partly(st, Parents(st, path))} ELSE {})
  \cup (IF o.op = "log" THEN
          LET s == st.snk[o.h] IN
          IF s.ino = 0 \/ TooBig(s, Record(st, o.h, o.m, o.pid))
          THEN {Closed(st, o.h)} \cup {r.st : r \in Roll(st, o.h, o.fault)} \cup {r.st : r \in Partly(Closed(st, o.h), Parents(st, RollName(s.path, FirstFree(st, s.path, s.idx, s.num), s.num)))} ELSE {} ELSE {})

\* ------------------------------------------------------------- observations
\* The bytes on disk are those settled, and some of those one sink has pending. obs: [dirs, files: path -> bytes].
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rest(a, b) == SubSeq(b, Len(a) + 1, Len(b))        \* b without its prefix a
Writers(st, ino) == {h \in DOMAIN st.snk : st.snk[h].ino = ino}
Explains(st, ino, x) == x = st.data[ino] \/ (IsPrefix(st.data[ino], x) /\ \E h \in Writers(st, ino) : IsPrefix(Rest(st.data[ino], x), st.snk[h].pend))
Agrees(st, obs) ==
  /\ RangeOf(obs.dirs) = st.dirs \ {""}
  /\ DOMAIN obs.files = DOMAIN st.names
  /\ \A p \in DOMAIN st.names : Explains(st, st.names[p], obs.files[p])
\* the state after it was seen
Seen(st, obs) ==
  LET at(ino) == CHOOSE p \in DOMAIN st.names : st.names[p] = ino
      more(ino) == IF \E p \in DOMAIN st.names : st.names[p] = ino THEN Rest(st.data[ino], obs.files[at(ino)]) ELSE ""
      who(ino) == CHOOSE h \in Writers(st, ino) : IsPrefix(more(ino), st.snk[h].pend)
  IN [st EXCEPT !.data = [n \in DOMAIN st.data |-> st.data[n] \o more(n)],
                !.snk = [h \in DOMAIN st.snk |-> IF st.snk[h].ino > 0 /\ more(st.snk[h].ino) # "" /\ who(st.snk[h].ino) = h
                                                 THEN [st.snk[h] EXCEPT !.pend = Rest(more(st.snk[h].ino), @)] ELSE st.snk[h]]]
\* open descriptors on files of the tree
OpenFiles(st) == Cardinality({h \in DOMAIN st.snk : st.snk[h].ino > 0})
=============================================================================

------------------------------- MODULE FilesMC -------------------------------
(* Small worlds of file sinks explored exhaustively: a rolling sink with its  *)
(* limits and files that are there already (Kind "roll"), file sinks that     *)
(* append and truncate (Kind "file"). The transitions are replayed in the     *)
(* real sinks. Ghost: what the files must hold.                               *)
EXTENDS Files, Json, TLC
CONSTANTS Kind, Depth
VARIABLES st, op, ghost
vars == <<st, op, ghost>>
NoFault == [fn |-> "", fired |-> 0, cut |-> 0]
Blank == [op |-> "", h |-> "h", kind |-> "", path |-> "", trunc |-> FALSE, max |-> 0, num |-> 0, p |-> "", q |-> "", txt |-> "", done |-> TRUE, fault |-> NoFault]
Msg(t) == [nm |-> "", txt |-> t, lv |-> 2, file |-> "", line |-> 0, fn |-> "", tid |-> "1", day |-> 1, sod |-> 0, ns |-> 0]
Base == "r.x"
Letters == <<"a", "b", "c">>
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE c \o Rep(c, n - 1)
Open1 == "h" \in DOMAIN st.snk
S == st.snk["h"]
\* the bytes a file is to have: on disk, and still to come from its sink
Held(s, ino) == LET h == {x \in DOMAIN s.snk : s.snk[x].ino = ino} IN s.data[ino] \o (IF h = {} THEN "" ELSE s.snk[CHOOSE x \in h : TRUE].pend)
Whole(p) == IF p \in DOMAIN st.names THEN Held(st, st.names[p]) ELSE ""
RollOps ==
  (IF ~Open1 THEN {[Blank EXCEPT !.op = "open", !.kind = "roll", !.path = Base, !.max = mx, !.num = n] : mx \in {3}, n \in {0, 1, 2, 3}}
                  \cup {[Blank EXCEPT !.op = "open", !.kind = "roll", !.path = Base, !.max = x[1], !.num = x[2]] : x \in {<<0, 3>>, <<3, 10001>>, <<1, 10>>}} ELSE {})
  \cup (IF Open1 THEN {[Blank EXCEPT !.op = "log", !.txt = Rep(Letters[(ghost.n % 3) + 1], k)] : k \in {1, 2, 4}} \cup {[Blank EXCEPT !.op = "flush"], [Blank EXCEPT !.op = "drop"]} ELSE {})
  \cup {[Blank EXCEPT !.op = "write", !.p = p, !.txt = "x"] : p \in {"r_1.x", "r_2.x", "r_3.x"} \ DOMAIN st.names}
  \cup {[Blank EXCEPT !.op = "mkdir", !.p = p] : p \in (IF Open1 THEN {} ELSE {"r_2.x"}) \ (DOMAIN st.names \cup st.dirs)}
FileOps ==
  (IF ~Open1 THEN {[Blank EXCEPT !.op = "open", !.kind = "file", !.path = p, !.trunc = t] : p \in {"f", "d/f"}, t \in BOOLEAN} ELSE {})
  \cup (IF Open1 THEN {[Blank EXCEPT !.op = "log", !.txt = Rep(Letters[(ghost.n % 3) + 1], k)] : k \in 0..2} \cup {[Blank EXCEPT !.op = "flush"], [Blank EXCEPT !.op = "drop"]} ELSE {})
  \cup {[Blank EXCEPT !.op = "write", !.p = "f", !.txt = "x"], [Blank EXCEPT !.op = "mkdir", !.p = "d"]}
  \cup (IF "d" \in st.dirs THEN {} ELSE IF "d" \in DOMAIN st.names THEN {} ELSE {[Blank EXCEPT !.op = "write", !.p = "d", !.txt = "y"]})
  \cup {[Blank EXCEPT !.op = "rm", !.p = p] : p \in DOMAIN st.names} \cup {[Blank EXCEPT !.op = "mv", !.p = p, !.q = "g"] : p \in DOMAIN st.names \ {"g"}}
Allowed(o) == /\ o.op = "mkdir" => o.p \notin DOMAIN st.names
              /\ o.op = "write" => o.p \notin st.dirs /\ Len(Whole(o.p)) < 4
              /\ o.op = "log" => ghost.m < (IF Kind = "roll" THEN 12 ELSE 3)
Arg(o) == IF o.op = "log" THEN [op |-> "log", h |-> "h", m |-> Msg(o.txt), pid |-> 1, fault |-> NoFault] ELSE o
\* with the plain format at once
Plain1(s) == IF "h" \in DOMAIN s.snk THEN [s EXCEPT !.snk["h"].fmt = NewFormatter("%v", "", Nothing, Zero)] ELSE s
Name(i) == RollName(Base, i, S.num)
\* ghost: n, m messages since the opening; recs: those that must be there, as [i, txt] (file number); first: where the sink started; old: what others had
Ghost(o, r, s) ==
  IF r.lo > 0 THEN ghost
  ELSE CASE o.op = "open" -> [n |-> ghost.n, m |-> 0, recs |-> <<>>, old |-> [p \in DOMAIN st.names |-> Held(st, st.names[p])]]
    [] o.op = "log" -> LET i == s.snk["h"].idx
                           kept == IF Kind = "roll" /\ TooBig(S, o.txt) /\ i = S.idx THEN SelectSeq(ghost.recs, LAMBDA x : x.i # i) ELSE ghost.recs
                       IN [ghost EXCEPT !.n = (@ + 1) % 3, !.m = @ + 1, !.recs = Append(kept, [i |-> i, txt |-> o.txt])]
    [] o.op = "drop" -> [ghost EXCEPT !.m = 0, !.recs = <<>>, !.old = Nothing]
    [] OTHER -> ghost
Init == st = Initial /\ op = Blank /\ ghost = [n |-> 0, m |-> 0, recs |-> <<>>, old |-> Nothing]
Next == \E o \in (IF Kind = "roll" THEN RollOps ELSE FileOps) :
          /\ Allowed(o)
          /\ \E r \in Outcomes(st, Arg(o)) : LET s == Plain1(r.st) IN st' = s /\ op' = o /\ ghost' = Ghost(o, r, s)
Spec == Init /\ [][Next]_vars

\* C15
RECURSIVE Texts(_, _)
Texts(rs, i) == IF rs = <<>> THEN "" ELSE (IF Head(rs).i = i THEN Head(rs).txt ELSE "") \o Texts(Tail(rs), i)
Mine == {ghost.recs[k].i : k \in DOMAIN ghost.recs}
Rolling == Kind = "roll" /\ Open1 =>
  /\ \A i \in Mine : i <= (IF S.num = 0 THEN 1 ELSE S.num) /\ Name(i) \in DOMAIN st.names /\ Whole(Name(i)) = Texts(ghost.recs, i)
  /\ \A i \in Mine : LET rs == SelectSeq(ghost.recs, LAMBDA x : x.i = i) IN Len(rs) = 1 \/ Len(Texts(rs, i)) <= S.max
  /\ \A a, b \in DOMAIN ghost.recs : a < b => ghost.recs[a].i <= ghost.recs[b].i
  /\ S.max > 0 /\ S.num <= MaxNum
\* files others made are never touched, but the last number
Untouched == [][\A p \in DOMAIN st.names : (p \in DOMAIN st'.names /\ Kind = "roll" /\ op'.op \in {"open", "log", "flush", "drop"} /\ ~(\E h \in DOMAIN st.snk : st.snk[h].ino = st.names[p]))
                  => Held(st', st'.names[p]) = Held(st, st.names[p]) \/ ("h" \in DOMAIN st'.snk /\ p = RollName(Base, IF st'.snk["h"].num = 0 THEN 1 ELSE st'.snk["h"].num, st'.snk["h"].num))]_vars
\* starts a new file exactly when the message does not fit
Fits == [][(Kind = "roll" /\ op'.op = "log" /\ "h" \in DOMAIN st.snk) =>
             LET a == st.snk["h"] b == st'.snk["h"] IN a.ino # 0 /\ b.ino # 0 => (b.cur = Len(op'.txt) /\ (a.idx # b.idx \/ a.cur # 0)) <=> (a.cur > 0 /\ a.cur + Len(op'.txt) > a.max)]_vars
\* C16: opening keeps or empties, logging appends, nothing else changes a file
Appends == [][(Kind = "file" /\ op'.op \in {"open", "log", "flush", "drop"}) =>
                \A p \in DOMAIN st.names : LET a == Held(st, st.names[p]) b == Held(st', st'.names[p]) IN
                  b = a \/ (op'.op = "open" /\ op'.trunc /\ op'.path = p /\ b = "") \/ (op'.op = "log" /\ S.ino = st.names[p] /\ b = a \o op'.txt)]_vars
Durable == [][op'.op \in {"flush", "drop"} /\ Open1 /\ S.ino > 0 => st'.data[S.ino] = Held(st, S.ino)]_vars

Key(s, g) == [dirs |-> s.dirs, files |-> [p \in DOMAIN s.names |-> Held(s, s.names[p])],
           snk |-> IF "h" \in DOMAIN s.snk THEN <<s.snk["h"].ino \in {s.names[p] : p \in DOMAIN s.names}, s.snk["h"].max, s.snk["h"].num, s.snk["h"].idx, s.snk["h"].cur, s.snk["h"].path,
                                                  {p \in DOMAIN s.names : s.names[p] = s.snk["h"].ino}, IF s.snk["h"].ino > 0 THEN Held(s, s.snk["h"].ino) ELSE "">> ELSE <<>>,
           g |-> g, p |-> IF "h" \in DOMAIN s.snk THEN s.snk["h"].pend ELSE ""]
Shallow == TLCGet("level") < Depth
View == Key(st, ghost)
Emit == PrintT(<<"TR", ToJson(View), ToJson([op |-> op'.op, path |-> op'.path, kind |-> op'.kind, trunc |-> op'.trunc, max |-> op'.max, num |-> op'.num, p |-> op'.p, q |-> op'.q, txt |-> op'.txt]), ToJson(View')>>)
==============================================================================

------------------------------- MODULE MsgBuf -------------------------------
(* Messages that own their text. A slot holds nothing, a plain buffered     *)
(* message (kind "m"), or a message of the asynchronous queue (kind "a",    *)
(* which can only be moved). What a moved-from message contains is not      *)
(* specified until something is assigned to it (known = FALSE).             *)
EXTENDS Integers, Sequences

None == [kind |-> "none", known |-> TRUE, val |-> [nm |-> "none"]]
DefaultMsg == [nm |-> "", txt |-> "", lv |-> 6, file |-> "", line |-> 0, fn |-> "", us |-> 0, tid |-> 0]

Enabled(m, o) ==
  CASE o.op \in {"make", "amake", "def", "adef", "del"} -> TRUE
    [] o.op = "copy" -> o.b # o.c /\ m[o.c].kind # "none" /\ m[o.c].known
    [] o.op = "mov"  -> o.b # o.c /\ m[o.c].kind # "none" /\ m[o.c].known
    [] o.op = "asg"  -> m[o.b].kind = "m" /\ m[o.c].kind # "none" /\ m[o.c].known
    [] o.op = "masg" -> o.b # o.c /\ m[o.b].kind = "m" /\ m[o.c].kind # "none" /\ m[o.c].known
    [] o.op \in {"amov"} -> o.b # o.c /\ m[o.c].kind = "a" /\ m[o.c].known
    [] o.op \in {"amasg"} -> o.b # o.c /\ m[o.c].kind = "a" /\ m[o.b].kind = "a" /\ m[o.c].known
Apply(m, o, v) ==
  CASE o.op = "make"  -> [m EXCEPT ![o.b] = [kind |-> "m", known |-> TRUE, val |-> v]]
    [] o.op = "amake" -> [m EXCEPT ![o.b] = [kind |-> "a", known |-> TRUE, val |-> v]]
    [] o.op = "def"   -> [m EXCEPT ![o.b] = [kind |-> "m", known |-> TRUE, val |-> DefaultMsg]]
    [] o.op = "adef"  -> [m EXCEPT ![o.b] = [kind |-> "a", known |-> TRUE, val |-> DefaultMsg]]
    [] o.op = "del"   -> [m EXCEPT ![o.b] = None]
    [] o.op = "copy"  -> [m EXCEPT ![o.b] = [kind |-> "m", known |-> TRUE, val |-> m[o.c].val]]
    [] o.op = "asg"   -> [m EXCEPT ![o.b].val = m[o.c].val, ![o.b].known = TRUE]
    [] o.op = "mov"   -> [m EXCEPT ![o.b] = [kind |-> "m", known |-> TRUE, val |-> m[o.c].val], ![o.c].known = FALSE]
    [] o.op = "amov"  -> [m EXCEPT ![o.b] = [kind |-> "a", known |-> TRUE, val |-> m[o.c].val], ![o.c].known = FALSE]
    [] o.op \in {"masg", "amasg"} -> [m EXCEPT ![o.b].val = m[o.c].val, ![o.b].known = TRUE, ![o.c].known = FALSE]
=============================================================================

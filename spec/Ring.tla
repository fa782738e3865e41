-------------------------------- MODULE Ring --------------------------------
(* What a ring buffer is: a bounded sequence that drops its oldest item,    *)
(* or "invalid" (default constructed, cleared, moved from): empty, ignoring *)
(* insertions and removals. A configuration is a set of named buffers.      *)
EXTENDS Integers, Sequences

Invalid == [ok |-> FALSE, cap |-> 0, items |-> <<>>, over |-> 0]
New(n)  == [ok |-> TRUE, cap |-> n, items |-> <<>>, over |-> 0]

Push(r, x) ==
  IF ~r.ok THEN r
  ELSE LET all == Append(r.items, x) IN
       IF Len(all) > r.cap THEN [r EXCEPT !.items = Tail(all), !.over = @ + 1] ELSE [r EXCEPT !.items = all]
\* removal from an empty valid buffer is the caller's mistake
CanPop(r) == ~r.ok \/ r.items # <<>>
Pop(r) == IF r.ok THEN [r EXCEPT !.items = Tail(@)] ELSE r

\* one operation o = [op, b, c, n] on the buffers m
Enabled(m, o) ==
  CASE o.op = "pop" -> CanPop(m[o.b])
    [] o.op \in {"copy", "mov", "masg"} -> o.b # o.c
    [] OTHER -> TRUE
Apply(m, o) ==
  CASE o.op \in {"new", "anew"} -> [m EXCEPT ![o.b] = New(o.n)]
    [] o.op \in {"def", "clear"} -> [m EXCEPT ![o.b] = Invalid]
    [] o.op = "push" -> [m EXCEPT ![o.b] = Push(@, o.n)]
    [] o.op = "pop"  -> [m EXCEPT ![o.b] = Pop(@)]
    [] o.op \in {"copy", "asg"} -> [m EXCEPT ![o.b] = m[o.c]]
    [] o.op \in {"mov", "masg"} -> [m EXCEPT ![o.b] = m[o.c], ![o.c] = Invalid]
    [] o.op = "rst" -> [m EXCEPT ![o.b].over = 0]

\* what the public methods show
Obs(r) == [sz |-> Len(r.items), em |-> r.items = <<>>, fu |-> r.ok /\ Len(r.items) = r.cap, it |-> r.items, ov |-> r.over]
=============================================================================

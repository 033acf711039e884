------------------------------- MODULE PlugGen -------------------------------
(* Scripts for the driver that plays the plugins: every sequence of MaxLen       *)
(* commands of one area.                                                         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Area, MaxLen
VARIABLES cmds
vars == <<cmds>>

Ins(at, x) == [c |-> "ins", v |-> 1, at |-> at, x |-> x]
Bs(at) == [c |-> "bs", v |-> 1, at |-> at]
Undo == [c |-> "undo", v |-> 1]
Redo == [c |-> "redo", v |-> 1]
Ack(p, n) == [c |-> "ack", p |-> p, n |-> n, bad |-> FALSE, res |-> 0]
Refuse(p) == [c |-> "ack", p |-> p, n |-> 1, bad |-> TRUE, res |-> 0]
Ed(s, n, x) == [s |-> s, n |-> n, x |-> x]
Edit(p, lag, ed, g, prio) == [c |-> "pedit", v |-> 1, p |-> p, lag |-> lag, ed |-> ed, prio |-> prio, g |-> g]
Odd(p, what) == [c |-> "pedit", v |-> 1, p |-> p, lag |-> 0, ed |-> <<Ed(0, 0, <<122>>)>>, prio |-> 1, g |-> "none"] @@ what
Data(p, lag, s, unit, max) == [c |-> "data", v |-> 1, p |-> p, lag |-> lag, s |-> s, unit |-> unit, max |-> max]
Sp(gap, n, d) == [gap |-> gap, n |-> n, d |-> d]
Spans(p, lag, s, n, sp) == [c |-> "spans", v |-> 1, p |-> p, lag |-> lag, s |-> s, n |-> n, sp |-> sp]
Annot(p, lag, s, n, sp) == [c |-> "annot", v |-> 1, p |-> p, lag |-> lag, s |-> s, n |-> n, sp |-> sp]
Scopes(p, k) == [c |-> "scopes", v |-> 1, p |-> p, k |-> k]
Theme(n) == [c |-> "theme", n |-> n]
Stop(late) == [c |-> "stop", v |-> 1, p |-> 2, late |-> late]
Start == [c |-> "start", v |-> 1, p |-> 2]
Look == [c |-> "look", v |-> 1]

TextCmds ==
  {Ins(0, <<120>>), Ins(2, <<233, 10>>), Ins(-1, <<121>>), Bs(2), Undo, Redo, Ack(1, 1), Ack(2, 30), Refuse(2),
   Edit(1, 1, <<Ed(1, 0, <<112>>)>>, "none", 0), Edit(2, 1, <<Ed(1, 0, <<113>>)>>, "none", 131072),
   Edit(2, 2, <<Ed(0, 2, <<>>)>>, "none", 1), Edit(1, 0, <<Ed(0, 1, <<10>>), Ed(2, 1, <<>>)>>, "last", 1),
   Edit(2, 3, <<Ed(0, 0, <<114>>)>>, "prev", 1), Odd(1, [rev |-> "unknown"]), Odd(1, [bad |-> TRUE]),
   Data(2, 1, 2, "utf8", 100), Data(1, 2, 1, "line", 2)}
StyleCmds ==
  {Ins(0, <<120>>), Ins(2, <<233>>), Bs(3), Undo, Edit(2, 1, <<Ed(1, 1, <<112, 113>>)>>, "none", 1),
   Spans(1, 0, 0, 9, <<Sp(0, 1, 0), Sp(1, 2, 1)>>), Spans(1, 1, 1, 2, <<Sp(0, 1, 1)>>), Spans(2, 1, 2, 9, <<Sp(0, 2, 2)>>),
   Spans(2, 2, 0, 2, <<Sp(0, 2, 0)>>), Spans(2, 0, 0, 9, <<>>),
   Annot(1, 0, 1, 2, <<Sp(0, 1, 7), Sp(0, 1, 8)>>), Annot(2, 1, 2, 9, <<Sp(0, 2, 9)>>), Annot(1, 1, 0, 9, <<>>),
   Theme(2), Stop(FALSE), Stop(TRUE), Start, Look}
Alphabet == IF Area = "text" THEN TextCmds ELSE StyleCmds
Prelude == IF Area = "text" THEN <<>> ELSE <<Scopes(1, <<2, 4>>), Scopes(2, <<1, 3, 5>>)>>
Docs == IF Area = "text" THEN <<<<97, 10, 98>>>> ELSE <<<<97, 228, 98, 99, 100>>>>

Changes(c) == c.c \in {"ins", "bs", "pedit"}
Has(P(_)) == \E k \in 1..Len(cmds) : P(cmds[k])
(* scripts that say nothing a shorter one does not are left out *)
Useful(c) ==
  /\ c.c \in {"undo", "redo", "ack"} => Has(Changes)
  /\ c.c = "redo" => Has(LAMBDA x : x.c = "undo")
  /\ (Area = "text" /\ Len(cmds) = MaxLen - 1) => c.c # "ack"
  /\ c.c = "start" => Has(LAMBDA x : x.c = "stop")
  /\ c.c = "stop" => ~Has(LAMBDA x : x.c = "stop")
  /\ c = Look => Len(cmds) \in 1..(MaxLen - 2)

Init == cmds = <<>>
Next ==
  /\ Len(cmds) < MaxLen
  /\ \E c \in Alphabet : Useful(c) /\ cmds' = Append(cmds, c)
  /\ IF Len(cmds') = MaxLen THEN PrintT("SCRIPT " \o ToJson([docs |-> Docs, cmds |-> Prelude \o cmds'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

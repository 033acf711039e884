------------------------------ MODULE CoreTrace ------------------------------
(* Decides recorded sessions of the whole core. *)
EXTENDS Core, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, skip
vars == <<i, s, skip>>
Ev == Trace[i]

RECURSIVE TagSeq(_)
TagSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o TagSeq(S \ {x})
Report(tags, d) == PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> TagSeq(tags), want |-> d]))
Init == i = 1 /\ s = Begin([files |-> <<>>, gen |-> <<>>, rust |-> <<>>, rustdef |-> <<>>]) /\ skip = TRUE
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ CASE Ev.op = "new" -> s' = Begin(Ev) /\ skip' = FALSE
       [] skip -> UNCHANGED <<s, skip>>
       [] Ev.op = "cmd" ->
            LET r == Step(s, Ev) IN
            /\ s' = r[1] /\ skip' = (r[2] # {})
            /\ IF r[2] = {} THEN TRUE ELSE Report({x[1] : x \in r[2]}, [why |-> TagSeq({x[2] : x \in r[2]}), before |-> s.views])
       [] Ev.op = "end" -> UNCHANGED <<s, skip>>
       [] OTHER -> UNCHANGED s /\ skip' = TRUE /\ Report({"L01", "K01", "S01"}, [why |-> <<Ev.op>>])
  /\ IF i = Len(Trace) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE PCacheGen ------------------------------
(* Sessions of a plugin that works line by line while the text is edited: some    *)
(* work, an edit, a question, some work, another edit, and so on; printed as       *)
(* scripts for the driver.                                                         *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Docs, Texts, MaxOps, MaxDel, Works
VARIABLES doc, len, ops, turn, over

DocsDef == {<<97, 10, 35, 10, 98>>, <<35, 10, 10>>}
TextsDef == {<<>>, <<35>>, <<10>>}
TextsMore == {<<>>, <<35>>, <<10>>, <<35, 10>>}

Init == /\ doc \in Docs /\ len = Len(doc) /\ ops = <<>> /\ turn = "work" /\ over = FALSE
Work == /\ turn = "work" /\ turn' = IF Len(ops) >= MaxOps - 1 THEN "end" ELSE "edit"
        /\ \E k \in Works : ops' = IF k = 0 THEN ops ELSE Append(ops, [op |-> "work", a |-> k])
        /\ UNCHANGED <<doc, len, over>>
Edit == /\ turn = "edit" /\ turn' = "ask"
        /\ \E a \in 0..len, n \in 0..MaxDel, t \in Texts :
             /\ a + n <= len /\ (n > 0 \/ t # <<>>)
             /\ ops' = Append(ops, [op |-> "rep", a |-> a, b |-> a + n, t |-> t])
             /\ len' = len - n + Len(t)
        /\ UNCHANGED <<doc, over>>
Ask == /\ turn = "ask" /\ turn' = "work"
       /\ \E q \in {"none", "line", "region"} :
            ops' = CASE q = "none" -> ops
                     [] q = "line" -> Append(ops, [op |-> "line", a |-> 1])
                     [] OTHER -> Append(ops, [op |-> "region", a |-> len \div 2, b |-> len])
       /\ UNCHANGED <<doc, len, over>>
Emit == /\ turn = "end" /\ ~over /\ over' = TRUE
        /\ PrintT("SCRIPT " \o ToJson([doc |-> doc, ops |-> ops]))
        /\ UNCHANGED <<doc, len, ops, turn>>
Next == Work \/ Edit \/ Ask \/ Emit
Spec == Init /\ [][Next]_<<doc, len, ops, turn, over>>
=============================================================================

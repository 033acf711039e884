------------------------------- MODULE RpcGen -------------------------------
(* Everything the surroundings of an RPC loop can do in MaxLen steps: the peer    *)
(* sends calls whose handlers ask back, schedule work, or wait until more has     *)
(* arrived; it answers, or not; other threads send requests; lines are broken,    *)
(* the stream ends, writing begins to fail.  Printed as scripts for the driver.   *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxLen
VARIABLES steps, over

Prog == {<<>>, <<<<"sync">>>>, <<<<"async", 1>>>>, <<<<"idle", 0>>>>, <<<<"timer", 2>>>>,
         <<<<"hold", 1>>, <<"pend">>>>, <<<<"idle", 0>>, <<"hold", 1>>>>}
Step == {[t |-> "req", do |-> p] : p \in Prog}
        \cup {[t |-> "ntf", do |-> p] : p \in {<<>>, <<<<"sync">>>>}}
        \cup {[t |-> "ext", do |-> p] : p \in {<<<<"sync">>>>, <<<<"async", 0>>, <<"idle", 0>>>>}}
        \cup {[t |-> "ans", how |-> h] : h \in {"v", "again"}}
        \cup {[t |-> x] : x \in {"badreq", "junk", "weird", "brk", "settle", "eof"}}

Init == steps = <<>> /\ over = FALSE
Grow == /\ ~over /\ Len(steps) < MaxLen
        /\ \E s \in Step :
             /\ ~(\E i \in 1..Len(steps) : steps[i].t = "eof" /\ s.t \notin {"ext"})
             /\ ~(\E i \in 1..Len(steps) : steps[i].t = "brk" /\ s.t = "brk")
             /\ (s.t = "settle" => steps # <<>> /\ steps[Len(steps)].t # "settle")
             /\ steps' = Append(steps, s)
        /\ over' = FALSE
Emit == /\ ~over /\ Len(steps) = MaxLen
        /\ PrintT("SCRIPT " \o ToJson([steps |-> steps]))
        /\ over' = TRUE /\ UNCHANGED steps
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<steps, over>>
=============================================================================

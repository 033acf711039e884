------------------------------ MODULE RpcTrace ------------------------------
EXTENDS Rpc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, skip
vars == <<i, s, skip>>

Init == i = 1 /\ s = NewLoop /\ skip = TRUE
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i] IN
     IF ev.op # "new" /\ skip THEN UNCHANGED <<s, skip>>
     ELSE LET r == On(s, ev, i) IN
          /\ s' = r.s
          /\ skip' = ~r.ok
          /\ r.ok \/ PrintT("MISMATCH " \o ToJson([line |-> i, state |-> s]))
Over == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1 /\ UNCHANGED <<s, skip>>
Next == Step \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE PCacheTrace -----------------------------
EXTENDS PCache, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, c, skip
vars == <<i, c, skip>>

Res(ok, x) == [ok |-> ok, c |-> x]
On(x, ev) ==
  CASE ev.op = "new" -> Res(TRUE, NewCache(ev.doc))
    [] ev.op = "edit" -> Res(EditOk(x, ev.els, ev.doc), EditTo(x, ev.els, ev.doc))
    [] ev.op = "ask" -> Res(AskOk(x, ev), x)
    [] ev.op = "set" -> Res(TRUE, x)
    [] ev.op = "work" -> Res(WorkOk(x, ev), Work(x, ev))
    [] ev.op = "idle" -> Res(IdleOk(x), [x EXCEPT !.idle = TRUE])
    [] ev.op = "states" -> Res(StatesOk(x, ev), x)
    [] OTHER -> Res(FALSE, x)

Init == i = 1 /\ c = NewCache(<<>>) /\ skip = TRUE
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i] IN
     IF ev.op # "new" /\ skip THEN UNCHANGED <<c, skip>>
     ELSE LET r == On(c, ev) IN
          /\ c' = r.c
          /\ skip' = ~r.ok
          /\ r.ok \/ PrintT("MISMATCH " \o ToJson([line |-> i, state |-> c]))
Over == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1 /\ UNCHANGED <<c, skip>>
Next == Step \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================

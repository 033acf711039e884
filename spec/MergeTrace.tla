----------------------------- MODULE MergeTrace -----------------------------
EXTENDS Merge, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w, skip
vars == <<i, w, skip>>

Res(ok, x, want) == [ok |-> ok, w |-> x, want |-> want]
On(x, ev) ==
  CASE ev.op = "new" -> Res(ev.head = <<>>, NewWorld(ev.replicas), <<>>)
    [] ev.op = "edit" -> LET r == EditOk(x, ev.r, ev.e, ev.base, ev.els, ev.athead, ev.head)
                         IN Res(ev.ok /\ r.ok, r.w, r.want)
    [] ev.op = "merge" -> MergeOk(x, ev.r, ev.s, ev.head)
    [] ev.op = "rev" -> Res(ev.txt = x.text[ev.r], x, x.text[ev.r])
    [] OTHER -> Res(FALSE, x, <<"no such step">>)

Init == i = 1 /\ w = NewWorld(1) /\ skip = TRUE
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i] IN
     IF ev.op # "new" /\ skip THEN UNCHANGED <<w, skip>>
     ELSE LET r == On(w, ev) IN
          /\ w' = r.w
          /\ skip' = ~r.ok
          /\ r.ok \/ PrintT("MISMATCH " \o ToJson([line |-> i, want |-> r.want]))
Done == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1 /\ UNCHANGED <<w, skip>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================

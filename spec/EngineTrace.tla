---------------------------- MODULE EngineTrace ----------------------------
(* Decides whether recorded runs of the real engine are behaviours of Engine. *)
EXTENDS Engine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, doc, skip
vars == <<i, doc, skip>>

(* what an event may do: [ok, doc, want] *)
Res(ok, d, want) == [ok |-> ok, doc |-> d, want |-> want]

OnNew(ev) == LET d == NewDoc(ev.txt) IN Res(ev.head = ev.txt, d, ev.txt)

OnEdit(d, ev) ==
  LET refuse == ev.base = 0 \/ ev.bad # 0 IN
  IF refuse
  THEN Res(~ev.ok /\ ~ev.new /\ ev.head = HeadText(d), d, <<"refused", HeadText(d)>>)
  ELSE LET d2 == Edited(d, ev.base, ev.prio, ev.grp, ev.els) IN
       Res(ev.ok /\ ev.new /\ ev.head = HeadText(d2), d2, HeadText(d2))

OnUndo(d, ev) == LET d2 == Undone(d, Rng(ev.grps)) IN
                 Res(ev.new /\ ev.head = HeadText(d2), d2, HeadText(d2))

OnGc(d, ev) == LET d2 == Collected(d, Rng(ev.grps)) IN Res(ev.head = HeadText(d), d2, HeadText(d))

OnRev(d, ev) ==
  IF ev.rev >= d.floor THEN Res(ev.some /\ ev.txt = Text(d, ev.rev), d, Text(d, ev.rev))
  ELSE IF ev.rev \in d.gone
       THEN Res(~ev.some, d, <<"discarded">>)
       ELSE Res(TRUE, d, <<>>)      \* an old revision after a collection: nothing is promised

OnDrh(d, ev) == IF ev.rev < d.floor THEN Res(TRUE, d, <<>>)
                ELSE Res(ev.some /\ ev.err = "" /\ ev.txt = HeadText(d), d, HeadText(d))

OnEquiv(d, ev) ==
  LET same == Text(d, ev.a) = Text(d, ev.b)
      must == IF d.floor = 1 THEN SameState(d, ev.a, ev.b) ELSE ev.a = ev.b
  IN Res((ev.res => same) /\ (must => ev.res), d, <<same, must>>)

OnMax(d, ev) == LET G == {d.revs[k].grp : k \in 1..NRev(d)} IN Res(ev.res = SMax(G), d, SMax(G))

On(d, ev) == CASE ev.op = "edit"  -> OnEdit(d, ev)
               [] ev.op = "undo"  -> OnUndo(d, ev)
               [] ev.op = "gc"    -> OnGc(d, ev)
               [] ev.op = "rev"   -> OnRev(d, ev)
               [] ev.op = "drh"   -> OnDrh(d, ev)
               [] ev.op = "equiv" -> OnEquiv(d, ev)
               [] ev.op = "maxgrp" -> OnMax(d, ev)
               [] OTHER           -> Res(FALSE, d, <<"no such step">>)

Init == i = 1 /\ doc = EmptyDoc /\ skip = TRUE

Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i] IN
     IF ev.op # "new" /\ skip THEN UNCHANGED <<doc, skip>>
     ELSE LET r == IF ev.op = "new" THEN OnNew(ev) ELSE On(doc, ev) IN
          /\ doc' = r.doc
          /\ skip' = ~r.ok
          /\ r.ok \/ PrintT("MISMATCH " \o ToJson([line |-> i, want |-> r.want]))

Done == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1 /\ UNCHANGED <<doc, skip>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================

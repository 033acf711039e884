------------------------------ MODULE PlugTrace ------------------------------
(* Decides recorded runs of the core with plugins.                               *)
EXTENDS Plug, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, skip
vars == <<i, s, skip>>
Ev == Trace[i]

(* s: [b: buffers, up: which plugins run, pid, th: theme] *)
InfoOk(bs, info) ==
  /\ {info[k].v : k \in 1..Len(info)} = 1..Len(bs) /\ Len(info) = Len(bs)
  /\ \A k \in 1..Len(info) :
       LET b == bs[info[k].v] IN
       info[k].rev = NRev(b.d) /\ info[k].len = Size(HeadCps(b)) /\ info[k].lines = Lines(HeadCps(b))

Begin(ev) == [b |-> [k \in 1..Len(ev.docs) |-> Buffer(ev.docs[k], Len(ev.pids))],
              up |-> [p \in 1..Len(ev.pids) |-> TRUE], pid |-> ev.pids, th |-> 1]

Kind(op) == CASE op = "ins" -> "insert" [] op = "bs" -> "delete" [] op = "undo" -> "undo" [] op = "redo" -> "redo" [] OTHER -> "other"
Author(q, ev) == IF ev.op = "pedit" THEN "plugin-" \o ToString(q.pid[ev.p]) ELSE "core"

UpdOk(q, b, ev, made, p) ==
  LET u == ev.upd[p] IN
  IF ~made \/ ~q.up[p] THEN u = <<>>
  ELSE /\ Len(u) = 1
       /\ u[1].ok /\ u[1].v = ev.v /\ u[1].txt = HeadCps(b)
       /\ u[1].rev = NRev(b.d)
       /\ u[1].len = Size(HeadCps(b)) /\ u[1].lines = Lines(HeadCps(b))
       /\ u[1].ug = Top(b) /\ u[1].et = Kind(ev.op) /\ u[1].au = Author(q, ev)

RECURSIVE AckAll(_, _, _, _)
AckAll(bs, p, a, k) == IF k > Len(a) THEN bs ELSE AckAll([bs EXCEPT ![a[k][1]] = Acked(@, p, 1)], p, a, k + 1)

(* <<state, made a revision, give up afterwards>> *)
After(q, ev) ==
  LET b == q.b[ev.v]
      put(r) == <<[q EXCEPT !.b[ev.v] = r[1]], r[2], FALSE>>
      old == ev.op = "pedit" /\ ev.base # NoTok /\ (ev.base < b.d.floor \/ ev.grp \in b.d.frozen)
  IN CASE ev.op = "ins" -> put(Ins(b, q.up, ev.at, ev.x))
       [] ev.op = "bs" -> put(Bs(b, q.up, ev.at))
       [] ev.op = "undo" -> put(Undo(b, q.up))
       [] ev.op = "redo" -> put(Redo(b, q.up))
       [] ev.op = "pedit" -> IF old THEN <<q, FALSE, TRUE>> ELSE put(PluginEdit(b, q.up, ev))
       [] ev.op = "ack" -> <<[q EXCEPT !.b = AckAll(@, ev.p, ev.a, 1)], FALSE, FALSE>>
       [] ev.op = "scopes" -> put(<<Scopes(b, q.pid[ev.p], ev.st), FALSE>>)
       [] ev.op = "spans" -> IF ~ev.bad /\ ev.base < b.d.floor THEN <<q, FALSE, TRUE>>
                             ELSE put(<<Spans(b, q.pid[ev.p], ev), FALSE>>)
       [] ev.op = "annot" -> IF ~ev.bad /\ ev.base < b.d.floor THEN <<q, FALSE, TRUE>>
                             ELSE put(<<Annots(b, ev), FALSE>>)
       [] ev.op = "theme" -> <<[q EXCEPT !.th = ev.n], FALSE, FALSE>>
       [] ev.op \in {"stop", "kill"} ->
            <<[q EXCEPT !.up[ev.p] = FALSE,
                        !.b = [k \in DOMAIN @ |-> Gone(@[k], ev.p, q.pid[ev.p], "t" \o ToString(q.pid[ev.p]))]], FALSE, FALSE>>
       [] ev.op = "start" -> <<[q EXCEPT !.up[ev.p] = TRUE, !.pid[ev.p] = ev.pid], FALSE, FALSE>>
       [] OTHER -> <<q, FALSE, FALSE>>

Wrong(q, q2, made, ev) ==      \* tag and reason
  LET b == q2.b[ev.v]
      x == HeadCps(b)
      running == {p \in DOMAIN q2.up : q2.up[p]}
      sh == ev.shown IN
  (IF ev.text # x THEN {<<"P01", "text">>} ELSE {})
  \cup {<<"P01", "update">> : p \in {p \in DOMAIN q2.up : ev.text = x /\ ~UpdOk(q2, b, ev, made, p)}}
  \cup {<<"P01", "line count">> : p \in {p \in running : ev.counts[p] # Lines(x)}}
  \cup (IF ev.odd THEN {<<"P01", "unknown message">>} ELSE {})
  \cup (IF ev.op = "data" /\ (ev.base = NoTok \/ ev.base >= b.d.floor)
          /\ ~(IF ev.base = NoTok THEN ev.res = <<>> ELSE DataOk(Cps(Text(b.d, ev.base)), ev))
        THEN {<<"P01", "data">>} ELSE {})
  \cup (IF ev.op \in {"start"} /\ ~InfoOk(q2.b, ev.info) THEN {<<"P01", "introduction">>} ELSE {})
  \cup (IF ev.op \in {"stop", "kill"} /\ ~ev.told THEN {<<"P01", "stop">>} ELSE {})
  \cup (IF sh = <<>> \/ ev.text # x THEN {}
        ELSE IF ~sh[1].whole \/ sh[1].txt # x THEN {<<"P01", "front-end's text">>, <<"P03", "front-end's text">>}
        ELSE (IF StylesWrong(b, q2.th, sh[1]) # {} THEN {<<"P03", "styles">>} ELSE {})
             \cup (IF AnnWrong(b, sh[1]) # {} THEN {<<"P03", "annotations">>} ELSE {}))

RECURSIVE TagSeq(_)
TagSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o TagSeq(S \ {x})
Report(tags, d) == PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> TagSeq(tags), want |-> d]))
Detail(q, ev) == LET b == q.b[ev.v] IN
  [text |-> HeadCps(b), head |-> NRev(b.d), floor |-> b.d.floor, top |-> Top(b),
   sty |-> IF ev.shown = <<>> THEN <<>> ELSE TagSeq(StylesWrong(b, q.th, ev.shown[1])),
   ann |-> IF ev.shown = <<>> THEN <<>> ELSE TagSeq(AnnWrong(b, ev.shown[1]))]

Init == i = 1 /\ s = Begin([docs |-> <<>>, pids |-> <<>>]) /\ skip = TRUE
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ CASE Ev.op = "new" ->
            LET q == Begin(Ev) ok == \A p \in 1..Len(Ev.info) : InfoOk(q.b, Ev.info[p]) IN
            s' = q /\ skip' = ~ok /\ (IF ok THEN TRUE ELSE Report({"P01"}, [why |-> <<"introduction">>]))
       [] Ev.op \in {"panic", "hang", "ended", "crash"} -> UNCHANGED s /\ skip' = TRUE /\ (Report({"L01", "P01", "P03"}, [why |-> <<Ev.op>>]))
       [] skip -> UNCHANGED <<s, skip>>
       [] OTHER ->
            LET r == After(s, Ev)
                w == IF r[3] THEN {} ELSE Wrong(s, r[1], r[2], Ev) IN
            /\ s' = r[1] /\ skip' = (w # {} \/ r[3])
            /\ IF w = {} THEN TRUE ELSE Report({x[1] : x \in w}, [why |-> TagSeq({x[2] : x \in w})] @@ Detail(r[1], Ev))
  /\ IF i = Len(Trace) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE WrapTrace ------------------------------
(* Decides recorded sessions with long texts: while lines are still to be wrapped *)
(* what the front-end has at last is a partition of the text into lines,           *)
(* numbered as they should be; when the work is done, the one of Wrap.            *)
EXTENDS Client, Json, IOUtils
LOCAL INSTANCE SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, cache, skip
vars == <<i, s, cache, skip>>
Ev == Trace[i]

(* the texts are taken as recorded here: Editor decides them *)
Width1(q, e) == CASE e.c = "resize" -> [q EXCEPT !.px = e.w, !.wrap = IF @[1] = 2 THEN <<2, e.w>> ELSE @]
                  [] e.c = "wrap" -> [q EXCEPT !.wrap = WrapOf(e.cfg, q.px)]
                  [] OTHER -> q
RECURSIVE After(_, _, _)
After(q, cmds, k) == IF k > Len(cmds) THEN q ELSE After(Width1(q, cmds[k]), cmds, k + 1)

(* p: how far of T the lines reach, lg: the number of the last line of the document *)
Partition(ca, T) ==
  LET Line(x, l) ==
        LET p == x.p n == Len(l.t) new == p = 0 \/ T[p] = LF lg == IF new THEN x.lg + 1 ELSE x.lg IN
        IF /\ x.fine /\ p + n <= Len(T) /\ Sub(T, p, p + n) = l.t
           /\ \A j \in 1..(n - 1) : l.t[j] # LF
           /\ n = 0 => p = Len(T)
           /\ l.real = new /\ l.lg = lg
        THEN [p |-> p + n, lg |-> lg, fine |-> TRUE]
        ELSE [x EXCEPT !.fine = FALSE]
      z == FoldLeft(Line, [p |-> 0, lg |-> 0, fine |-> TRUE], ca)
  IN /\ Len(ca) > 0 /\ z.fine /\ z.p = Len(T)
     /\ (T # <<>> /\ T[Len(T)] = LF) => ca[Len(ca)].t = <<>>
AllValid(ca) == \A k \in 1..Len(ca) : ca[k].v
RECURSIVE Updates(_, _, _)                \* <<cache, index of an update that does not fit it, or 0>>
Updates(ca, ups, k) ==
  IF k > Len(ups) THEN <<ca, 0>>
  ELSE LET r == ApplyUpdate(ca, ups[k].ops) IN IF r[2] THEN Updates(r[1], ups, k + 1) ELSE <<r[1], k>>

Wrong(ca, T, ls, reals, l) ==
  LET a == ls[l] b == OffOfLine(T, ls, l) rl == LineOf(reals, a) IN
  \/ l > Len(ca)
  \/ ~ca[l].v /\ Len(ls) <= 1000                       \* beyond that it may be far from what is shown
  \/ ca[l].v /\ (ca[l].t # Sub(T, a, b) \/ ca[l].lg \notin {0, rl + 1} \/ ca[l].real # (reals[rl + 1] = a))
WrongLine(ca, T, ls, reals) ==         \* the first line that is not as it should be, or 0
  LET bad == {l \in 1..Len(ls) : Wrong(ca, T, ls, reals, l)} IN IF bad = {} THEN 0 ELSE CHOOSE l \in bad : \A m \in bad : l <= m

(* of a long document the front-end keeps what is shown, and lines around that it can rely on *)
Unfaithful(ca, T, ls, win, l) ==
  IF ~ca[l].v THEN l > win[1] /\ l <= win[2]
  ELSE LET a == ls[l] b == OffOfLine(T, ls, l) IN ca[l].t # Sub(T, a, b) \/ ca[l].lg \notin {0, l} \/ ~ca[l].real
UnfaithfulLine(ca, T, ls, win) ==
  LET bad == {l \in 1..Len(ls) : Unfaithful(ca, T, ls, win, l)} IN IF bad = {} THEN 0 ELSE CHOOSE l \in bad : \A m \in bad : l <= m

Report(w, d) == PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> IF Ev.op = "far" THEN <<"V01">> ELSE <<"V02">>, want |-> [what |-> w, at |-> d]]))
Judge(q, ca, w, d) == /\ s' = q /\ cache' = ca /\ skip' = (w # "")
                      /\ IF w = "" THEN TRUE ELSE Report(w, d)
Init == /\ i = 1 /\ s = <<>> /\ cache = <<>> /\ skip = TRUE
Step(q, u, last) ==
  IF u[2] # 0 THEN Judge(q, u[1], "update", u[2])
  ELSE IF last # "" THEN Judge(q, u[1], last, 0)
  ELSE Judge(q, u[1], IF AllValid(u[1]) /\ ~Partition(u[1], q.T) THEN "partition" ELSE "", 0)
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ CASE Ev.op = "new" ->
            Step([T |-> Ev.text, px |-> 0, wrap |-> WrapOf(Ev.cfg, 0)], Updates(<<>>, Ev.upd, 1), "")
       [] skip -> UNCHANGED <<s, cache, skip>>
       [] Ev.op = "burst" ->
            Step([After(s, Ev.cmds, 1) EXCEPT !.T = Ev.text], Updates(cache, Ev.upd, 1), "")
       [] Ev.op = "far" ->
            LET q == [After(s, Ev.cmds, 1) EXCEPT !.T = Ev.text] u == Updates(cache, Ev.upd, 1) ls == LStarts(q.T)
                w == IF u[2] # 0 \/ Len(u[1]) # Len(ls) THEN 0 ELSE UnfaithfulLine(u[1], q.T, ls, Ev.win) IN
            IF u[2] # 0 THEN Judge(q, u[1], "update", u[2])
            ELSE IF Len(u[1]) # Len(ls) THEN Judge(q, u[1], "lines", Len(ls))
            ELSE Judge(q, u[1], IF w # 0 THEN "line" ELSE "", w)
       [] Ev.op = "cmd" ->      \* a click: the place is that of the line the front-end has there
            LET ls == Vis(s) at == LC(s.T, ls, LineColToPos(s.T, ls, Ev.cmd.line, Ev.cmd.col)) IN
            Step(s, Updates(cache, Ev.upd, 1), IF Ev.scroll = <<at>> THEN "" ELSE "place")
       [] Ev.op = "look" ->
            LET u == Updates(cache, Ev.upd, 1) ls == Vis(s) w == WrongLine(u[1], s.T, ls, LStarts(s.T)) IN
            IF u[2] # 0 THEN Judge(s, u[1], "update", u[2])
            ELSE IF w # 0 THEN Judge(s, u[1], "line", w)
            ELSE Judge(s, u[1], IF Len(u[1]) # Len(ls) THEN "lines" ELSE "", Len(ls))
       [] Ev.op = "end" -> UNCHANGED <<s, cache, skip>>
       [] OTHER -> /\ UNCHANGED <<s, cache>> /\ skip' = TRUE
                   /\ PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> <<"V01", "V02", "L01">>, want |-> [died |-> Ev.op]]))
  /\ IF i = Len(Trace) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

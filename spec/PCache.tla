------------------------------- MODULE PCache -------------------------------
(* What the plugin library's cache is to a plugin: the current document, whatever *)
(* part of it is held; and states kept at starts of lines, with a list of places   *)
(* where work is to be done (the frontier).  A state belongs to the place right    *)
(* behind a character (or to the start of the text): an edit that takes that       *)
(* character away takes the state with it.                                         *)
EXTENDS VUtil

LF == 10
NewCache(doc) == [doc |-> doc, marks |-> <<>>, seen |-> <<>>, idle |-> FALSE]

LineCount(d) == 1 + Cardinality({i \in 1..Len(d) : d[i] = LF})
(* starts of the lines as character offsets, and the end of the text behind them *)
Starts(d) == <<0>> \o Sorted({i \in 1..Len(d) : d[i] = LF}) \o <<Len(d)>>
LineStart(d, n) == Starts(d)[n + 1]
LineText(d, n) == SubSeq(d, LineStart(d, n) + 1, LineStart(d, n + 1))
LineOf(d, o) == Cardinality({i \in 1..o : d[i] = LF})

(* '#' counts modulo three, '!' clears: the work of the plugin in these sessions *)
RECURSIVE StateFrom(_, _, _)
StateFrom(s, t, k) == IF k > Len(t) THEN s
                      ELSE StateFrom(IF t[k] = 35 THEN (s + 1) % 3 ELSE IF t[k] = 33 THEN 0 ELSE s, t, k + 1)
StateAfter(s, t) == StateFrom(s, t, 1)
StateAt(d, n) == StateAfter(0, SubSeq(d, 1, LineStart(d, n)))

(* where the place behind character p (0: the start) is after the edit; -1: gone *)
RECURSIVE PlaceIn(_, _, _, _)
PlaceIn(els, p, k, at) ==
  IF k > Len(els) THEN -1
  ELSE IF els[k].k = "c"
       THEN IF els[k].b < p /\ p <= els[k].e THEN at + p - els[k].b
            ELSE PlaceIn(els, p, k + 1, at + els[k].e - els[k].b)
       ELSE PlaceIn(els, p, k + 1, at + Len(els[k].ids))
Place(els, p) == IF p = 0 THEN 0 ELSE PlaceIn(els, p, 1, 0)
Moved(ms, els) == LET m == [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.pos = Place(els, @)]]
                  IN SelectSeq(m, LAMBDA x : x.pos >= 0)
Put(ms, m) == Append(SelectSeq(ms, LAMBDA x : x.pos # m.pos), m)
MarkAt(ms, p) == {i \in 1..Len(ms) : ms[i].pos = p}

EditTo(c, els, doc) == [c EXCEPT !.doc = doc, !.marks = Moved(@, els), !.seen = Moved(@, els), !.idle = FALSE]
EditOk(c, els, doc) == doc = DApply(els, c.doc)

AskOk(c, ev) ==
  LET d == c.doc n == LineCount(d) IN
  CASE ev.q = "line" -> IF ev.a >= n THEN ~ev.ok /\ ev.err = "BadRequest" ELSE ev.ok /\ ev.txt = LineText(d, ev.a)
    [] ev.q = "region" -> ev.ok /\ ev.txt = SubSeq(d, ev.a + 1, ev.b)
    [] ev.q = "doc" -> ev.ok /\ ev.txt = d
    [] ev.q = "off" -> IF ev.a > n THEN ~ev.ok /\ ev.err = "BadRequest" ELSE ev.ok /\ ev.n = LineStart(d, ev.a)
    [] ev.q = "lof" -> IF ev.a > Len(d) THEN ~ev.ok /\ ev.err = "BadRequest" ELSE ev.ok /\ ev.n = LineOf(d, ev.a)

(* what is reported for the nearest earlier line that has a state *)
PrevOk(c, line, off, st) ==
  /\ line < LineCount(c.doc) /\ off = LineStart(c.doc, line)
  /\ IF line = 0 THEN st = 0 ELSE \E i \in MarkAt(c.marks, off) : c.marks[i].v = st

WorkOk(c, ev) == ev.ok /\ ev.line <= ev.front /\ PrevOk(c, ev.line, ev.off, ev.st) /\ ev.txt = LineText(c.doc, ev.line)
Work(c, ev) ==
  LET a == [c EXCEPT !.seen = Put(@, [pos |-> ev.off, st |-> ev.st, txt |-> ev.txt])]
  IN IF ev.new < 0 THEN a
     ELSE [a EXCEPT !.marks = Put(@, [pos |-> LineStart(c.doc, ev.line + 1), v |-> ev.new])]

(* nothing left to do: every line has been seen as it is, beginning with the right state *)
IdleOk(c) == \A n \in 0..LineCount(c.doc) - 1 :
               \E i \in 1..Len(c.seen) : c.seen[i].pos = LineStart(c.doc, n)
                                         /\ c.seen[i].txt = LineText(c.doc, n) /\ c.seen[i].st = StateAt(c.doc, n)
StatesOk(c, ev) ==
  LET n == LineCount(c.doc) IN
  /\ Len(ev.vals) = n + 1 /\ ev.vals[n + 1] = -1
  /\ \A l \in 0..n - 1 :
       ev.vals[l + 1] # -1 =>
         /\ \E i \in MarkAt(c.marks, LineStart(c.doc, l)) : c.marks[i].v = ev.vals[l + 1]
         /\ c.idle => ev.vals[l + 1] = StateAt(c.doc, l)
  /\ \A l \in 0..n :
       LET p == ev.prev[l + 1] IN
       /\ p[1] <= l /\ PrevOk(c, p[1], p[2], p[3])
       /\ \A k \in p[1] + 1..l : ev.vals[k + 1] = -1             \* the nearest
=============================================================================

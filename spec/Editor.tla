------------------------------- MODULE Editor -------------------------------
(* The editor behind one view, as a state machine driven by the front-end's      *)
(* commands.  The state is a record:                                             *)
(*   T, I, nid     text, identities of its characters, last identity given out   *)
(*   snaps, cur    undoable states [g, t, i], first is the oldest; cur: where we  *)
(*                 are; snaps after cur can be redone                            *)
(*   last, this    kinds of the last edit and the current one                    *)
(*   kill, sel, drag, first, height, st (place to scroll to, or -1)              *)
(*   find, nfind, hl, repl     queries, ids given out, highlighting, replacement *)
(*   active, buf, recs         recording being made, its commands, recordings    *)
(*   saved         [t, i, kind, g, h, alive] what was last loaded or written     *)
(*   ngrp, hkind, hg           groups given out; kind and group of the head       *)
(*   gone          groups that are forgotten with the next change of the text    *)
(*   heads         number of changes of the text so far                          *)
(*   wrap, px      how lines are wrapped, and the width of the window             *)
EXTENDS FindSpec

MaxUndos == 20
Off == [g |-> "off", base |-> <<>>, mn |-> 0, mx |-> 0]
WrapOf(cfg, px) == IF "wrap" \notin DOMAIN cfg THEN NoWrap ELSE IF cfg.word THEN <<2, px>>
                   ELSE IF cfg.wrap = 0 THEN NoWrap ELSE <<1, cfg.wrap>>
Start(text, cfg) ==
  LET n == Len(text) i == [k \in 1..n |-> k] k == IF n = 0 THEN "undo" ELSE "edit" IN
  [T |-> text, I |-> i, nid |-> n, snaps |-> <<[g |-> 0, t |-> text, i |-> i]>>, cur |-> 1,
   last |-> "other", this |-> "other", kill |-> <<>>, sel |-> <<Caret(0)>>, drag |-> Off,
   first |-> 0, height |-> 10, st |-> 0, cfg |-> cfg,
   find |-> <<>>, nfind |-> 0, hl |-> FALSE, repl |-> <<FALSE, <<>>>>,
   active |-> <<>>, buf |-> <<>>, recs |-> <<>>,
   saved |-> [t |-> text, i |-> i, kind |-> k, g |-> 0, h |-> 0, alive |-> TRUE],
   ngrp |-> 0, hkind |-> k, hg |-> 0, gone |-> {}, heads |-> 0, wrap |-> WrapOf(cfg, 0), px |-> 0]

(* the starts of the visual lines *)
Vis(s) == WrapStarts(s.T, s.wrap)

ScrollCursor(s) ==
  LET e == Last(s.sel).e
      line == LineOf(Vis(s), e)
      f == IF line < s.first THEN line
           ELSE IF s.first + s.height <= line THEN line - (IMax(s.height, 1) - 1) ELSE s.first
  IN [s EXCEPT !.first = f, !.st = e]
SetSel(s, sel) == ScrollCursor([s EXCEPT !.sel = sel])
RawSel(s, sel) == [s EXCEPT !.sel = sel]

(* ---- where a place goes when the text with identities I becomes J ---- *)
Kept(J, id) == \E k \in 1..Len(J) : J[k] = id
At(J, id) == CHOOSE k \in 1..Len(J) : J[k] = id
RECURSIVE NextKept(_, _, _)
NextKept(I, J, p) == IF p >= Len(I) THEN Len(J) ELSE IF Kept(J, I[p + 1]) THEN At(J, I[p + 1]) - 1 ELSE NextKept(I, J, p + 1)
Trans(I, J, p, after) ==
  IF after THEN NextKept(I, J, p)
  ELSE IF p = 0 THEN 0 ELSE IF Kept(J, I[p]) THEN At(J, I[p]) ELSE NextKept(I, J, p)
TransRegion(I, J, r, drift) ==
  LET c == IsCaret(r) fwd == r.s < r.e
      sa == IF c THEN TRUE ELSE IF drift = "in" THEN ~fwd ELSE IF drift = "out" THEN fwd ELSE TRUE
      ea == IF c THEN TRUE ELSE IF drift = "in" THEN fwd ELSE IF drift = "out" THEN ~fwd ELSE TRUE
  IN Reg(Trans(I, J, r.s, sa), Trans(I, J, r.e, ea))
TransSel(I, J, sel, drift) == IF I = J THEN AddAll([k \in 1..Len(sel) |-> Reg(sel[k].s, sel[k].e)])
                              ELSE AddAll([k \in 1..Len(sel) |-> TransRegion(I, J, sel[k], drift)])

(* the text was changed: views follow *)
Committed(s, old) ==
  LET drift == IF s.this = "transpose" THEN "in" ELSE IF s.this = "surround" THEN "out" ELSE "default" IN
  ScrollCursor([s EXCEPT !.sel = TransSel(old.I, s.I, old.sel, drift), !.drag = Off, !.last = s.this, !.this = "other", !.heads = @ + 1])
(* forget the groups that cannot be undone or redone any more *)
Collect(s) ==
  LET lost == s.gone # {} /\ s.saved.h # s.heads
              /\ (s.saved.kind = "undo" \/ s.saved.g \in s.gone)
  IN [s EXCEPT !.saved.alive = @ /\ ~lost, !.gone = {}]

(* ---- undo groups ---- *)
NewGroup(s) ==
  LET g == s.ngrp + 1
      gone == {s.snaps[k].g : k \in (s.cur + 1)..Len(s.snaps)}
      ss == Append(SubSeq(s.snaps, 1, s.cur), [g |-> g, t |-> s.T, i |-> s.I])
      full == Len(ss) > MaxUndos
  IN [s EXCEPT !.ngrp = g, !.snaps = IF full THEN Tail(ss) ELSE ss, !.cur = IF full THEN @ ELSE @ + 1,
        !.gone = @ \cup gone \cup IF full THEN {ss[1].g} ELSE {}]
(* an edit of kind `kind`; `post` is the kind it counts as afterwards *)
Edit(s, eds, kind, post, force) ==
  LET fresh == ~force /\ (kind \in {"other", "transpose"} \/ kind # s.last)
      a == IF fresh THEN NewGroup(s) ELSE s
      T2 == Apply(s.T, eds)
      I2 == IdsFrom(s.I, eds, 1, 0, s.nid)
      g == Last(a.snaps).g        \* the youngest group, even when it was undone
      k == IF fresh THEN a.cur ELSE Len(a.snaps)
      b == [a EXCEPT !.T = T2, !.I = I2, !.nid = @ + Inserted(eds, Len(eds)), !.last = kind, !.this = post,
                     !.snaps[k] = [g |-> g, t |-> T2, i |-> I2], !.hkind = "edit", !.hg = g]
  IN Committed(b, s)
Same(eds, kind, s, force) == Edit(s, eds, kind, kind, force)
Nothing(eds, n) == \A k \in 1..Len(eds) : eds[k].a = eds[k].b /\ eds[k].x = <<>> /\ eds[k].a \in {0, n}
MaybeEdit(s, eds, kind, force) == IF Nothing(eds, Len(s.T)) THEN s ELSE Same(eds, kind, s, force)
ToSnap(s, k, kind) ==
  LET b == [s EXCEPT !.T = s.snaps[k].t, !.I = s.snaps[k].i, !.cur = k, !.this = kind, !.hkind = "undo", !.hg = 0] IN
  Committed(b, s)

(* ---- searches ---- *)
Occs(s) == [k \in 1..Len(s.find) |-> Matches(s.T, s.find[k])]
FindMove(s, back, wrap, how) ==
  LET f == FindStep(s.T, Occs(s), s.sel, back, wrap) IN
  IF f = <<>> \/ how = "none" THEN s ELSE SetSel(s, SelectFound(s.sel, f[1], how))
FindAllSel(s) == LET all == AddAll(Flat(Occs(s))) IN IF all = <<>> THEN s ELSE SetSel(s, all)
WordOrSel(s) == LET r == Last(s.sel) IN
                IF IsCaret(r) THEN LET w == SelWord(s.T, r.e) IN Sub(s.T, w[1], w[2]) ELSE Sub(s.T, RMin(r), RMax(r))
Query(id, pat, cs, ww) == [id |-> id, pat |-> pat, cs |-> cs, ww |-> ww, isre |-> FALSE, re |-> <<>>]
Lit(q, id) == [id |-> id, pat |-> q.pat, cs |-> q.cs, ww |-> q.ww, isre |-> q.isre, re |-> q.re]
AddQ(s, q) == [s EXCEPT !.find = Append(@, Lit(q, s.nfind + 1)), !.nfind = @ + 1]
RECURSIVE SetQueries(_, _, _)
SetQueries(s, qs, k) ==
  IF k > Len(qs) THEN s
  ELSE IF qs[k].id = 0 THEN SetQueries(AddQ(s, qs[k]), qs, k + 1)
  ELSE SetQueries([s EXCEPT !.find = [j \in 1..Len(@) |-> IF @[j].id = qs[k].id THEN Lit(qs[k], qs[k].id) ELSE @[j]]], qs, k + 1)
MultiFind(s, qs) ==
  SetQueries([s EXCEPT !.find = SelectSeq(@, LAMBDA f : \E k \in 1..Len(qs) : qs[k].id = f.id)], qs, 1)

Collapsed(sel) == <<[s |-> sel[1].e, e |-> sel[1].e, h |-> sel[1].h]>>
Replace(s, all, force) ==
  IF ~s.repl[1] THEN s ELSE
  LET c == SetSel(s, Collapsed(s.sel))
      f == IF all THEN FindAllSel(c) ELSE FindMove(c, FALSE, TRUE, "set")
  IN IF HasRegion(f.sel) THEN Edit(f, Over(f.sel, s.repl[2]), f.this, f.this, force) ELSE SetSel(c, s.sel)

(* ---- gestures ---- *)
Gesture(s, e) ==
  LET ls == Vis(s)
      p == LineColToPos(s.T, ls, e.line, e.col)
  IN CASE e.ty = "select" ->
            LET hit == e.multi /\ e.g = "point" /\ InRange(s.sel, p, p) # <<>>
                rest == DeleteRange(s.sel, p, p, TRUE)
                u == Unit(s.T, ls, p, e.g)
                base == IF e.multi THEN s.sel ELSE <<>>
            IN IF hit /\ rest # <<>> THEN RawSel([s EXCEPT !.drag = Off], rest)
               ELSE [SetSel(s, AddRegion(base, Reg(u[1], u[2]))) EXCEPT !.drag = [g |-> e.g, base |-> base, mn |-> u[1], mx |-> u[2]]]
       [] e.ty = "extend" ->
            LET l == Last(s.sel)
                base == SubSeq(s.sel, 1, Len(s.sel) - 1)
            IN [SetSel(s, AddRegion(base, RangeRegion(s.T, ls, l.s, l.s, p, e.g)))
                  EXCEPT !.drag = [g |-> e.g, base |-> base, mn |-> l.s, mx |-> l.s]]
       [] e.ty = "drag" ->
            IF s.drag.g = "off" THEN s
            ELSE SetSel(s, AddRegion(s.drag.base, RangeRegion(s.T, ls, s.drag.mn, s.drag.mx, p, s.drag.g)))
RECURSIVE AddBeside(_, _, _, _, _)
AddBeside(s, m, k, acc, ls) ==
  IF k > Len(s.sel) THEN acc
  ELSE AddBeside(s, m, k + 1, AddRegion(AddRegion(acc, s.sel[k]), MoveRegion(s.T, ls, s.height, m, s.sel[k], FALSE)), ls)

(* ---- commands ---- *)
ViewOps == {"move", "select_all", "scroll", "add_above", "add_below", "gesture", "goto", "find", "multi_find", "find_next",
            "find_all", "hl", "sel_find", "set_replace", "sel_replace", "into_lines", "collapse"}
DoView(s, e) ==
  LET ls == Vis(s) IN
  CASE e.c = "move" -> SetSel([s EXCEPT !.drag = Off], MoveAll(s.T, ls, s.height, e.m, s.sel, e.mod))
    [] e.c = "select_all" -> RawSel(s, <<Reg(0, Len(s.T))>>)
    [] e.c = "scroll" -> [s EXCEPT !.first = IMax(0, e.a), !.height = IMax(0, IMax(0, e.b) - IMax(0, e.a))]
    [] e.c = "add_above" -> SetSel(s, AddBeside(s, "up_exact", 1, <<>>, ls))
    [] e.c = "add_below" -> SetSel(s, AddBeside(s, "down_exact", 1, <<>>, ls))
    [] e.c = "gesture" -> Gesture(s, e)
    [] e.c = "goto" -> SetSel(s, <<Caret(LineColToPos(s.T, ls, e.line, 0))>>)
    [] e.c = "find" -> IF s.find = <<>> THEN AddQ(s, e.q) ELSE MultiFind(s, <<Lit(e.q, s.find[1].id)>>)
    [] e.c = "multi_find" -> MultiFind(s, e.qs)
    [] e.c = "find_next" -> FindMove(s, e.back, e.wrap, e.how)
    [] e.c = "find_all" -> FindAllSel(s)
    [] e.c = "hl" -> [s EXCEPT !.hl = e.v]
    [] e.c = "sel_find" -> LET q == Query(0, WordOrSel(s), e.cs, TRUE) IN
                           IF Len(s.find) = 1 THEN [s EXCEPT !.find = <<Lit(q, s.find[1].id)>>] ELSE AddQ(s, q)
    [] e.c = "set_replace" -> [s EXCEPT !.repl = <<TRUE, e.x>>]
    [] e.c = "sel_replace" -> [s EXCEPT !.repl = <<TRUE, WordOrSel(s)>>]
    [] e.c = "into_lines" -> RawSel(s, IntoLines(s.T, s.sel))
    [] e.c = "collapse" -> SetSel(s, Collapsed(s.sel))
Insert(s, x, force) ==
  LET pairs == SelectSeq(s.cfg.pairs, LAMBDA p : p[1] = x) IN
  IF pairs # <<>> /\ \A k \in 1..Len(s.sel) : ~IsCaret(s.sel[k])
  THEN Same(Surround(s.sel, pairs[1][1], pairs[1][2]), "surround", s, force)
  ELSE Same(Over(s.sel, x), "insert", s, force)
TabKind(s) == IF Len(s.sel) > 1 \/ (LET x == LineRange(s.T, s.sel[1]) IN x[2] > x[1]) THEN "indent" ELSE "insert"
DoBuffer(s, e, force) ==
  LET T == s.T sel == s.sel cfg == s.cfg IN
  CASE e.c = "insert" -> Insert(s, e.x, force)
    [] e.c = "paste" -> Edit(s, Paste(sel, e.x), s.this, s.this, force)
    [] e.c = "yank" -> Edit(s, Over(sel, s.kill), s.this, s.this, force)
    [] e.c = "newline" -> Edit(s, Over(sel, cfg.le), s.this, "newline", force)
    [] e.c = "tab" -> Edit(s, InsertTab(T, sel, cfg), s.this, TabKind(s), force)
    [] e.c = "bs" -> MaybeEdit(s, Backspace(T, sel, cfg), "delete", force)
    [] e.c = "del" -> LET d == MotionRegions(T, Vis(s), s.height, e.m, sel)
                          k == IF e.m = "par_kill" THEN [s EXCEPT !.kill = Extract(T, d)] ELSE s
                      IN MaybeEdit(k, DelRegions(d), "delete", force)
    [] e.c = "cut" -> MaybeEdit(s, DelRegions(sel), "delete", force)
    [] e.c = "copy" -> s
    [] e.c = "indent" -> Edit(s, Indent(T, sel, cfg), s.this, "insert", force)
    [] e.c = "outdent" -> Edit(s, Outdent(T, sel, cfg), s.this, "delete", force)
    [] e.c = "dup" -> Edit(s, Duplicate(T, sel, cfg), s.this, "other", force)
    [] e.c = "upper" -> MaybeEdit(s, Cased(T, sel, TRUE), "other", force)
    [] e.c = "lower" -> MaybeEdit(s, Cased(T, sel, FALSE), "other", force)
    [] e.c = "capitalize" -> LET eds == Capitalize(T, sel)
                                 c == SetSel(SetSel(s, Collapsed(sel)), CapSelection(sel)) IN
                             IF eds = <<>> THEN c ELSE Same(eds, "other", c, force)
    [] e.c = "transpose" -> MaybeEdit(s, Transpose(T, sel), "transpose", force)
    [] e.c = "number" -> MaybeEdit(s, ChangeNumber(T, sel, e.up), "other", force)
    [] e.c = "replace_next" -> Replace(s, FALSE, force)
    [] e.c = "replace_all" -> Replace(s, TRUE, force)
    [] e.c = "undo" -> IF s.cur > 1 THEN ToSnap(s, s.cur - 1, "undo") ELSE s
    [] e.c = "redo" -> IF s.cur < Len(s.snaps) THEN ToSnap(s, s.cur + 1, "redo") ELSE s
One(s, e, force) ==
  IF e.c \in ViewOps THEN [DoView(s, e) EXCEPT !.last = s.this, !.this = "other"] ELSE DoBuffer(s, e, force)

(* ---- recordings: recs is a sequence of <<name, commands>> ---- *)
Recorded(c) == c \notin {"rec", "play", "clear", "request", "save", "cut", "copy", "resize", "reload", "wrap"}
HasRec(s, n) == \E k \in 1..Len(s.recs) : s.recs[k][1] = n
RecOf(s, n) == s.recs[CHOOSE k \in 1..Len(s.recs) : s.recs[k][1] = n][2]
Without(recs, n) == SelectSeq(recs, LAMBDA r : r[1] # n)
(* undone commands and the undos themselves are dropped, from the end backwards *)
RECURSIVE Clean(_, _, _, _)
Clean(b, k, su, sr) ==
  IF k = 0 THEN <<>>
  ELSE CASE b[k].c = "undo" -> Clean(b, k - 1, ~sr, FALSE)
         [] b[k].c = "redo" -> Clean(b, k - 1, FALSE, ~su)
         [] b[k].c \in ViewOps -> Append(Clean(b, k - 1, su, sr), b[k])
         [] OTHER -> LET rest == Clean(b, k - 1, FALSE, FALSE) IN IF su THEN rest ELSE Append(rest, b[k])
(* consecutive insertions count as one command; where told so, only those that never surround a selection *)
Opener(cfg, x) == "strict" \in DOMAIN cfg /\ cfg.strict /\ \E k \in 1..Len(cfg.pairs) : cfg.pairs[k][1] = x
Record(b, e, cfg) ==
  IF b # <<>> /\ e.c = "insert" /\ Last(b).c = "insert" /\ ~Opener(cfg, e.x) /\ ~Opener(cfg, Last(b).x)
  THEN [b EXCEPT ![Len(b)].x = @ \o e.x] ELSE Append(b, e)
SaveRec(s, n) == [s EXCEPT !.recs = Append(Without(@, n), <<n, Clean(s.buf, Len(s.buf), FALSE, FALSE)>>), !.buf = <<>>]
ToggleRec(s, name) ==       \* name: <<>> or <<n>>
  IF s.active = <<>> THEN [s EXCEPT !.active = name]
  ELSE IF name = <<>> \/ name = s.active THEN [SaveRec(s, s.active[1]) EXCEPT !.active = <<>>]
  ELSE [s EXCEPT !.active = name, !.buf = <<>>]
RECURSIVE PlayFrom(_, _, _)
PlayFrom(s, cmds, k) == IF k > Len(cmds) THEN s ELSE PlayFrom(One(s, cmds[k], TRUE), cmds, k + 1)
Play(s, n) ==
  IF s.active = <<n>> \/ ~HasRec(s, n) THEN s
  ELSE [PlayFrom(NewGroup([s EXCEPT !.last = s.this, !.this = "other"]), RecOf(s, n), 1) EXCEPT !.last = "other", !.this = "other"]
Do(s, e) ==
  CASE e.c = "rec" -> ToggleRec(s, e.name)
    [] e.c = "clear" -> [s EXCEPT !.recs = Without(@, e.n)]
    [] e.c = "play" -> LET q == Play(s, e.n) IN IF q = s THEN s ELSE Collect(q)
    [] e.c = "request" -> s
    [] e.c = "resize" -> [s EXCEPT !.px = e.w, !.wrap = IF @[1] = 2 THEN <<2, e.w>> ELSE @]
    [] e.c = "wrap" -> [s EXCEPT !.wrap = WrapOf(e.cfg, s.px)]
    [] e.c = "save" -> [s EXCEPT !.saved = [t |-> s.T, i |-> s.I, kind |-> s.hkind, g |-> s.hg, h |-> s.heads, alive |-> TRUE]]
    [] OTHER -> LET a == IF s.active # <<>> /\ Recorded(e.c) THEN [s EXCEPT !.buf = Record(@, e, s.cfg)] ELSE s IN
                LET q == One(a, e, FALSE) IN IF q.heads = a.heads THEN q ELSE Collect(q)
Command(s, e) == Do([s EXCEPT !.st = -1], e)

(* ---- what the front-end may be told ---- *)
PristineOk(s, p) == IF s.T # s.saved.t THEN ~p ELSE IF s.I = s.saved.i /\ s.saved.alive THEN p ELSE TRUE
=============================================================================

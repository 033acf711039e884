------------------------------ MODULE EditorMC ------------------------------
(* The editor of Editor.tla driven by every sequence of a few commands on small  *)
(* texts: what the properties promise, as invariants of the specification; and   *)
(* behaviours for the replay into the real core.                                 *)
EXTENDS Editor, Json

CONSTANTS Steps, Texts, Cmds, Emit

VARIABLES s, hist, out
vars == <<s, hist, out>>

Cfg == [tab |-> 2, tr |-> TRUE, stops |-> TRUE, le |-> <<10>>, pairs |-> << << <<40>>, <<41>> >> >>]
Widths == {NoWrap}
CfgOf(w) == IF w = NoWrap THEN Cfg ELSE Cfg @@ [wrap |-> IF w[1] = 1 THEN w[2] ELSE 0, word |-> w[1] = 2]
C(c) == [c |-> c]
Mv(m, mod) == [c |-> "move", m |-> m, mod |-> mod]
Dl(m) == [c |-> "del", m |-> m]
Ins(x) == [c |-> "insert", x |-> x]
Ge(l, col, g, ty, multi) == [c |-> "gesture", line |-> l, col |-> col, g |-> g, ty |-> ty, multi |-> multi]
Q(p) == [id |-> 0, pat |-> p, cs |-> TRUE, ww |-> FALSE, isre |-> FALSE, re |-> <<>>]
FindC(p) == [c |-> "find", q |-> Q(p)]
Nx(back, wrap, how) == [c |-> "find_next", back |-> back, wrap |-> wrap, how |-> how]

Motions == {Mv(m, mod) : m \in {"left", "right", "up", "down"}, mod \in BOOLEAN}
FarMotions == {Mv(m, mod) : m \in {"word_left", "word_right", "line_start", "line_end", "doc_start", "doc_end"}, mod \in BOOLEAN}
Edits == {Ins(<<97>>), Ins(<<40>>), C("newline"), C("tab"), C("bs"), Dl("right"), Dl("word_left"), C("dup"), C("transpose"), C("yank"),
          C("outdent"), C("upper"), C("indent"), Dl("par_kill"), C("cut"), C("capitalize"), [c |-> "paste", x |-> <<98, 10>>]}
Walks == {C("undo"), C("redo")}
Selects == {C("select_all"), C("add_above"), C("add_below"), C("into_lines"), C("collapse"),
            Ge(0, 1, "point", "select", TRUE), Ge(1, 0, "word", "select", TRUE), Ge(1, 1, "point", "extend", FALSE),
            Ge(0, 0, "line", "drag", FALSE), Ge(0, 2, "point", "select", FALSE)}
Finds == {FindC(<<97>>), FindC(<<97, 97>>), FindC(<<10>>), Nx(FALSE, TRUE, "set"), Nx(TRUE, FALSE, "set"), Nx(FALSE, FALSE, "add"), C("find_all"),
          [c |-> "set_replace", x |-> <<98>>], C("replace_next"), C("replace_all"), [c |-> "sel_find", cs |-> TRUE]}
Rec == {[c |-> "rec", name |-> <<n>>] : n \in {"x", "y"}} \cup {[c |-> "rec", name |-> <<>>], [c |-> "play", n |-> "x"], [c |-> "play", n |-> "y"],
        [c |-> "clear", n |-> "x"]}
Files == {C("save")}

CmdsUndo == {Ins(<<97>>), C("bs"), C("newline"), C("transpose"), Mv("left", FALSE), C("save")} \cup Walks
CmdsSel == Motions \cup Selects \cup {Ins(<<97>>), C("bs")}
CmdsEdit == Edits \cup {Mv("right", TRUE), Mv("doc_end", FALSE), C("add_below"), C("undo")}
CmdsFind == Finds \cup {Ins(<<97>>), C("bs"), Mv("right", FALSE)}
CmdsRec == Rec \cup {Ins(<<97>>), C("bs"), Mv("left", FALSE)} \cup Walks
CmdsWrap == {Ins(<<97>>), Ins(<<32>>), Ins(<<45>>), C("newline"), C("bs"), C("undo"), [c |-> "paste", x |-> <<105, 32, 97, 97, 10>>],
             Mv("down", FALSE), Mv("up", FALSE), Mv("line_end", TRUE), Mv("doc_end", FALSE), Ge(1, 1, "point", "select", FALSE),
             [c |-> "resize", w |-> 4], [c |-> "wrap", cfg |-> [wrap |-> 2, word |-> FALSE]], [c |-> "wrap", cfg |-> [wrap |-> 0, word |-> TRUE]]}
CmdsAll == Motions \cup FarMotions \cup Edits \cup Walks \cup Selects \cup Finds \cup Rec \cup Files

TextsSmall == {<<>>, <<97, 10, 97>>}
TextsMore == {<<>>, <<97, 10, 97, 98>>, <<233, 97, 32, 97, 10>>, <<13, 10, 97, 97, 97>>, <<9, 97, 40, 41, 10, 10, 128104, 8205, 128105>>}
TextsWrap == {<<97, 97, 32, 97, 32, 105, 32, 105>>, <<97, 32, 10, 97, 45, 97, 97, 32>>}
WidthsWrap == {<<1, 1>>, <<1, 3>>, <<2, 0>>}
Three == 3

Init == /\ \E t \in Texts, w \in Widths : s = Start(t, CfgOf(w)) /\ hist = [text |-> t, cmds |-> <<>>, cfg |-> CfgOf(w)]
        /\ out = FALSE
Step(c) == /\ Len(hist.cmds) < Steps /\ Len(s.T) < 12
           /\ s' = Command(s, c)
           /\ hist' = [hist EXCEPT !.cmds = Append(@, c)]
           /\ UNCHANGED out
Done == /\ Emit /\ Len(hist.cmds) = Steps /\ ~out
        /\ PrintT("SCRIPT " \o ToJson(hist))
        /\ out' = TRUE /\ UNCHANGED <<s, hist>>
Next == (\E c \in Cmds : Step(c)) \/ Done
Spec == Init /\ [][Next]_vars
View == IF Emit THEN <<s, hist, out>> ELSE <<[s EXCEPT !.st = 0], <<>>, Len(hist.cmds)>>

(* ------------------------------------------------------------------ properties *)
SelectionWellFormed == WellFormed(s.sel, Len(s.T)) /\ s.sel # <<>>
IdentitiesOnce == Len(s.I) = Len(s.T) /\ \A a, b \in 1..Len(s.I) : a # b => s.I[a] # s.I[b]
HeadIsCurrent == s.snaps[s.cur].t = s.T /\ s.snaps[s.cur].i = s.I
Bounded == Len(s.snaps) <= MaxUndos + 1 /\ s.cur \in 1..Len(s.snaps)

(* as many redos as undos lead back *)
RECURSIVE Times(_, _, _)
Times(q, c, n) == IF n = 0 THEN q ELSE Times(Command(q, C(c)), c, n - 1)
ThereAndBack ==
  \A n \in 1..(s.cur - 1) :
    LET u == Times(s, "undo", n) r == Times(u, "redo", n) IN
    /\ u.T = s.snaps[s.cur - n].t /\ r.T = s.T /\ r.I = s.I
(* the flag may only claim that nothing was changed when that is so *)
PristineMeans == s.saved.i = s.I => s.saved.t = s.T
(* searches: disjoint, in order, inside *)
MatchesExact ==
  \A k \in 1..Len(s.find) : LET m == Matches(s.T, s.find[k]) IN
     \A j \in 1..Len(m) : RMin(m[j]) >= 0 /\ RMax(m[j]) <= Len(s.T) /\ (j > 1 => RMax(m[j - 1]) <= RMin(m[j]))

(* lines: a partition that breaks after every newline, and places and lines go over into each other *)
LinesFine(T, ls) ==
  /\ ls[1] = 0 /\ \A k \in 2..Len(ls) : ls[k - 1] < ls[k] /\ ls[k] <= Len(T)
  /\ ls[Len(ls)] = Len(T) => (T = <<>> \/ T[Len(T)] = LF)
  /\ \A p \in 1..Len(T) : T[p] = LF => \E k \in 1..Len(ls) : ls[k] = p
  /\ \A k \in 1..Len(ls) : LineOf(ls, ls[k]) = k - 1 /\ OffOfLine(T, ls, k - 1) = ls[k]
  /\ \A p \in 0..Len(T) : LET l == LineOf(ls, p) IN OffOfLine(T, ls, l) <= p /\ (p < OffOfLine(T, ls, l + 1) \/ p = Len(T))
(* wrapped: only between words; what would fit is not put off; what does not fit is alone *)
WidthOf(T, a, b, w) == IF w[1] = 1 THEN b - a ELSE LET Wd2[k \in a..b] == IF k = a THEN 0 ELSE Wd2[k - 1] + Measure(T[k]) IN Wd2[b]
FirstWord(T, a) == SMin({q \in (a + 1)..Len(T) : q = Len(T) \/ MayBreak(T, q)})
WrappedWell(T, ls, w) ==
  w[1] = 0 \/ \A k \in 1..Len(ls) :
    LET a == ls[k] b == OffOfLine(T, ls, k) IN
    /\ a = 0 \/ a = Len(T) \/ MayBreak(T, a)
    /\ a < b => (WidthOf(T, a, b, w) <= w[2] \/ b = FirstWord(T, a))
    /\ (a < b /\ b < Len(T) /\ ~MustBreak(T, b)) => WidthOf(T, a, FirstWord(T, b), w) > w[2] \/ WidthOf(T, a, b, w) >= w[2]
(* what follows a newline is wrapped as if it were alone *)
WrapLocal(T, w) ==
  w[1] = 0 \/ \A p \in 1..Len(T) : T[p] = LF =>
    LET h == WrapStarts(SubSeq(T, 1, p), w) t == WrapStarts(Sub(T, p, Len(T)), w) IN
    WrapStarts(T, w) = h \o [k \in 1..(Len(t) - 1) |-> t[k + 1] + p]
LinesAreRight == LinesFine(s.T, Vis(s)) /\ WrappedWell(s.T, Vis(s), s.wrap) /\ WrapLocal(s.T, s.wrap)

(* ------------------------------------------------------- properties of one step *)
Cmd == Last(hist'.cmds)
Stepped == hist' # hist
(* playing is one step: one undo takes all of it back *)
PlayIsOneStep ==
  [][(Stepped /\ Cmd.c = "play" /\ s'.heads # s.heads) => Times(s', "undo", 1).I = s.I]_vars
(* playing does what the commands do one by one *)
PlayIsTheCommands ==
  [][(Stepped /\ Cmd.c = "play" /\ HasRec(s, Cmd.n) /\ s.active # <<Cmd.n>>) =>
     LET b == RecOf(s, Cmd.n)
         Run[k \in 0..Len(b)] == IF k = 0 THEN [s EXCEPT !.active = <<>>] ELSE Command(Run[k - 1], b[k])
     IN Run[Len(b)].T = s'.T /\ Run[Len(b)].sel = s'.sel]_vars
(* an edit takes away nothing outside the lines of its regions and the two next to them *)
OnlyNearRegions ==
  [][(Stepped /\ Cmd.c \in {"insert", "bs", "tab", "newline", "upper", "transpose", "cut", "yank", "paste", "indent", "outdent"}) =>
     LET ls == LStarts(s.T) IN
     \A k \in 1..Len(s.I) :
       (~Kept(s'.I, s.I[k])) =>
          \E r \in 1..Len(s.sel) : LineOf(ls, RMin(s.sel[r])) - 2 <= LineOf(ls, k - 1) /\ LineOf(ls, k - 1) <= LineOf(ls, RMax(s.sel[r])) + 1]_vars
(* motions, searches and recordings leave the text alone *)
OnlyEditsChange ==
  [][(Stepped /\ Cmd.c \in ViewOps \cup {"rec", "clear", "save", "copy"}) => s'.I = s.I /\ s'.snaps = s.snaps /\ s'.cur = s.cur]_vars
(* undoing moves through the states, and never forgets one *)
UndoWalks ==
  [][(Stepped /\ Cmd.c \in {"undo", "redo"}) => Len(s'.snaps) = Len(s.snaps) /\ s'.cur - s.cur \in {-1, 0, 1}]_vars
(* recordings of other names stay *)
OtherRecordingsStay ==
  [][\A k \in 1..Len(s.recs) : (s.recs[k][1] \notin ({s.active[j] : j \in 1..Len(s.active)} \cup (IF Stepped /\ Cmd.c = "clear" THEN {Cmd.n} ELSE {})))
       => HasRec(s', s.recs[k][1]) /\ RecOf(s', s.recs[k][1]) = s.recs[k][2]]_vars
=============================================================================

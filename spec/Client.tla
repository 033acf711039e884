------------------------------- MODULE Client -------------------------------
(* The front-end's copy of the lines of a view, kept by the documented rules     *)
(* from the operations the core sends.  A line is [v, t, c, st, lg, real]: valid *)
(* or not, text, caret columns, styled ranges <<from, length, style>>, number of *)
(* its logical line, and whether it is the first visual line of that one.        *)
EXTENDS Editor
LOCAL INSTANCE SequencesExt

NoLine == [v |-> FALSE, t |-> <<>>, c |-> {}, st |-> {}, lg |-> 0, real |-> FALSE]
(* The number of a line is 0 when the front-end cannot know it: the line before,  *)
(* which is the same one of the document, is not valid.                           *)
RECURSIVE Known(_, _)
Known(ls, k) == IF k > Len(ls) \/ ~ls[k].v THEN 0 ELSE IF ls[k].lg # 0 THEN k ELSE Known(ls, k + 1)
(* numbers of lines taken over start anew at ln *)
Renumber(ls, ln) ==
  IF ls = <<>> \/ ln = -1 \/ ~ls[1].v THEN ls
  ELSE LET f == Known(ls, 1)
           d == IF f = 0 THEN 0 ELSE IF f = 1 \/ ~ls[f].real THEN ln - ls[f].lg ELSE ln + 1 - ls[f].lg
       IN [k \in 1..Len(ls) |-> IF ls[k].lg # 0 THEN [ls[k] EXCEPT !.lg = @ + d]
                                 ELSE IF (f = 0 \/ k < f) /\ \A j \in 1..k : ls[j].v THEN [ls[k] EXCEPT !.lg = ln] ELSE ls[k]]
Numbered(ls, lg) ==        \* new lines: those without a number continue the one before
  LET Line(acc, l) ==
        LET n == IF l.ln # -1 THEN l.ln ELSE IF acc = <<>> THEN lg ELSE acc[Len(acc)].lg IN
        Append(acc, [v |-> TRUE, t |-> l.t, c |-> {l.c[j] : j \in 1..Len(l.c)},
                     st |-> {<<l.s[j][1], l.s[j][2], l.s[j][3]>> : j \in 1..Len(l.s)}, lg |-> n, real |-> l.ln # -1])
  IN FoldLeft(Line, <<>>, ls)
Touched(old, ls, ln) ==
  LET base == Renumber(old, ln) IN
  [k \in 1..Len(ls) |->
     IF ~base[k].v THEN base[k]
     ELSE [base[k] EXCEPT !.c = IF ls[k].hc THEN {ls[k].c[j] : j \in 1..Len(ls[k].c)} ELSE @,
                          !.st = IF ls[k].hs THEN {<<ls[k].s[j][1], ls[k].s[j][2], ls[k].s[j][3]>> : j \in 1..Len(ls[k].s)} ELSE @,
                          !.lg = IF ls[k].ln # -1 THEN ls[k].ln ELSE @]]
RECURSIVE OpsFrom(_, _, _, _, _)     \* <<lines, fine>>
OpsFrom(old, ops, k, ix, acc) ==
  IF k > Len(ops) THEN <<acc, TRUE>>
  ELSE LET o == ops[k] IN
  CASE o.op = "invalidate" -> OpsFrom(old, ops, k + 1, ix, acc \o [j \in 1..o.n |-> NoLine])
    [] o.op = "skip" -> IF ix + o.n > Len(old) THEN <<acc, FALSE>> ELSE OpsFrom(old, ops, k + 1, ix + o.n, acc)
    [] o.op = "copy" -> IF ix + o.n > Len(old) THEN <<acc, FALSE>>
                        ELSE OpsFrom(old, ops, k + 1, ix + o.n, acc \o Renumber(SubSeq(old, ix + 1, ix + o.n), o.ln))
    [] o.op = "update" -> IF ix + o.n > Len(old) \/ Len(o.lines) # o.n THEN <<acc, FALSE>>
                          ELSE OpsFrom(old, ops, k + 1, ix + o.n, acc \o Touched(SubSeq(old, ix + 1, ix + o.n), o.lines, o.ln))
    [] o.op = "ins" -> IF Len(o.lines) # o.n THEN <<acc, FALSE>>
                       ELSE OpsFrom(old, ops, k + 1, ix, acc \o Numbered(o.lines, IF acc = <<>> THEN 0 ELSE acc[Len(acc)].lg))
    [] OTHER -> <<acc, FALSE>>
ApplyUpdate(cache, ops) == OpsFrom(cache, ops, 1, 0, <<>>)

(* ---- what a line of the view is ---- *)
Ranges(T, a, b, rs, id) ==
  {<<BytesIn(T, a, IMax(RMin(rs[k]), a)), BytesIn(T, IMax(RMin(rs[k]), a), IMin(RMax(rs[k]), b)), id>> :
     k \in {j \in 1..Len(rs) : IMax(RMin(rs[j]), a) < IMin(RMax(rs[j]), b)}}
LineSel(s, ls, l) ==
  LET a == ls[l + 1] b == OffOfLine(s.T, ls, l + 1) IN Ranges(s.T, a, b, InRange(s.sel, a, b), 0)
LineFind(s, ls, l, occs) ==
  LET a == ls[l + 1] b == OffOfLine(s.T, ls, l + 1) IN
  IF s.hl THEN UNION {Ranges(s.T, a, b, InRange(occs[k], a, b), k) : k \in 1..Len(occs)} ELSE {}
LineCursors(s, ls, l) ==
  LET a == ls[l + 1] IN {BytesIn(s.T, a, s.sel[k].e) : k \in {j \in 1..Len(s.sel) : LineOf(ls, s.sel[j].e) = l}}

LineWrong(s, ls, reals, l, c, occs, full) ==
  LET a == ls[l + 1] b == OffOfLine(s.T, ls, l + 1) rl == LineOf(reals, a) IN
  LET seen == l >= s.first /\ l < s.first + s.height IN     \* lines kept for later may wait for their carets and styles
  (IF c.t # Sub(s.T, a, b) THEN {"text"} ELSE {})
  \cup (IF seen /\ c.c # LineCursors(s, ls, l) THEN {"cursors"} ELSE {})
  \cup (IF seen /\ {x \in c.st : x[3] = 0} # LineSel(s, ls, l) THEN {"selection"} ELSE {})
  \cup (IF full /\ seen /\ {x \in c.st : x[3] \in 1..Len(occs)} # LineFind(s, ls, l, occs) THEN {"matches"} ELSE {})
  \cup (IF c.lg \notin {0, rl + 1} \/ (c.lg = 0 /\ c.real) \/ c.real # (reals[rl + 1] = a) THEN {"number"} ELSE {})
(* what is wrong with the front-end's copy: <<line, what>> *)
CacheWrong(cache, s, ls, occs, full) ==
  LET reals == LStarts(s.T) IN
  IF Len(cache) # Len(ls) THEN {<<Len(cache), "lines">>}
  ELSE {<<l, "missing">> : l \in {k \in s.first..IMin(s.first + s.height - 1, Len(ls) - 1) : ~cache[k + 1].v}}
       \cup UNION {IF cache[l + 1].v THEN {<<l, w>> : w \in LineWrong(s, ls, reals, l, cache[l + 1], occs, full)} ELSE {} :
                   l \in 0..(Len(ls) - 1)}
=============================================================================

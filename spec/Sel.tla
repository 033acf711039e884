-------------------------------- MODULE Sel --------------------------------
(* Selections: sorted sequences of regions [s, e, h]: anchor, active end, and   *)
(* the remembered byte column (NoH when there is none); and motions.            *)
EXTENDS Wrap

NoH == -1
Reg(s, e) == [s |-> s, e |-> e, h |-> NoH]
Caret(p) == Reg(p, p)
RMin(r) == IMin(r.s, r.e)
RMax(r) == IMax(r.s, r.e)
IsCaret(r) == r.s = r.e

(* two regions, the first not starting after the second, that must become one *)
Touch(r, o) == RMin(o) < RMax(r) \/ ((IsCaret(r) \/ IsCaret(o)) /\ RMin(o) = RMax(r))
WellFormed(sel, n) ==
  /\ Len(sel) > 0
  /\ \A k \in 1..Len(sel) : sel[k].s \in 0..n /\ sel[k].e \in 0..n
  /\ \A k \in 1..(Len(sel) - 1) : RMax(sel[k]) <= RMin(sel[k + 1]) /\ ~Touch(sel[k], sel[k + 1])

Join(r, o) == LET a == IMin(RMin(r), RMin(o)) b == IMax(RMax(r), RMax(o)) IN
              IF r.e >= r.s THEN Reg(a, b) ELSE Reg(b, a)
(* the added region swallows what it overlaps, and keeps its direction *)
RECURSIVE Absorb(_, _, _)
Absorb(sel, r, k) == IF k <= Len(sel) /\ Touch(r, sel[k]) THEN Absorb(sel, Join(r, sel[k]), k + 1) ELSE <<r, k>>
RECURSIVE Search(_, _, _)
Search(sel, p, k) == IF k > Len(sel) \/ RMax(sel[k]) >= p THEN k ELSE Search(sel, p, k + 1)
AddRegion(sel, r) ==
  LET ix == Search(sel, RMin(r), 1)
      left == ix <= Len(sel) /\ RMin(sel[ix]) <= RMin(r)
      merge == left /\ Touch(sel[ix], r)
      r1 == IF merge THEN Join(r, sel[ix]) ELSE r
      from == IF left /\ ~merge THEN ix + 1 ELSE ix          \* regions before `from` stay
      ab == Absorb(sel, r1, IF left THEN ix + 1 ELSE ix)
  IN SubSeq(sel, 1, from - 1) \o <<ab[1]>> \o SubSeq(sel, ab[2], Len(sel))
RECURSIVE AddAllFrom(_, _, _)
AddAllFrom(acc, rs, k) == IF k > Len(rs) THEN acc ELSE AddAllFrom(AddRegion(acc, rs[k]), rs, k + 1)
AddAll(rs) == AddAllFrom(<<>>, rs, 1)
Last(s) == s[Len(s)]
InRange(sel, a, b) == SelectSeq(sel, LAMBDA r : RMax(r) >= a /\ RMin(r) <= b)
DeleteRange(sel, a, b, adj) ==
  SelectSeq(sel, LAMBDA r : ~(IF adj THEN RMax(r) >= a /\ RMin(r) <= b ELSE RMax(r) > a /\ RMin(r) < b))

(* ---- motions: ls are the starts of the visual lines ---- *)
Active(r, up, modify) == IF modify THEN r.e ELSE IF up THEN RMin(r) ELSE RMax(r)
Vert(T, ls, r, delta, modify) ==        \* <<position, column>>
  LET a == Active(r, delta < 0, modify)
      col == IF r.h # NoH THEN r.h ELSE ColOf(T, ls, a)
      line == LineOf(ls, a) + delta
  IN IF line < 0 THEN <<0, col>>
     ELSE IF line > LineOf(ls, Len(T)) THEN <<Len(T), col>>
     ELSE <<LineColToPos(T, ls, line, col), col>>
LineBytes(T, ls, l) == BytesIn(T, OffOfLine(T, ls, l), OffOfLine(T, ls, l + 1))
RECURSIVE ExactFrom(_, _, _, _, _, _)
ExactFrom(T, ls, line, col, up, init) ==
  IF LineBytes(T, ls, line) > col THEN line
  ELSE IF line >= LineOf(ls, Len(T)) \/ (line = 0 /\ up) THEN init
  ELSE ExactFrom(T, ls, IF up THEN line - 1 ELSE line + 1, col, up, init)
VertExact(T, ls, r, up, modify) ==
  LET a == Active(r, up, modify)
      col0 == IF r.h # NoH THEN r.h ELSE ColOf(T, ls, a)
      init == LineOf(ls, a)
      len == LineBytes(T, ls, init)
      col == IF len < col0 THEN IMax(len - 1, 0) ELSE col0
  IN IF up /\ init = 0 THEN <<LineColToPos(T, ls, 0, col0), col0>>
     ELSE <<LineColToPos(T, ls, ExactFrom(T, ls, IF up THEN init - 1 ELSE init + 1, col, up, init), col), col>>
Page(height) == IMax(height - 2, 1)

NextLF(T, p) == LET S == SelectSeq([k \in 1..(Len(T) - p) |-> p + k], LAMBDA k : T[k] = LF) IN
                IF S = <<>> THEN -1 ELSE S[1]                  \* place just after the next newline
RECURSIVE PrevLF(_, _)
PrevLF(T, p) == IF p <= 0 THEN 0 ELSE IF T[p] = LF THEN p ELSE PrevLF(T, p - 1)

Motion(T, ls, height, m, r, modify) ==   \* <<position, column>>
  CASE m = "left" -> IF IsCaret(r) \/ modify THEN (IF r.e = 0 THEN <<0, r.h>> ELSE <<GPrev(T, r.e), NoH>>) ELSE <<RMin(r), NoH>>
    [] m = "right" -> IF IsCaret(r) \/ modify THEN (IF r.e = Len(T) THEN <<r.e, r.h>> ELSE <<GNext(T, r.e), NoH>>) ELSE <<RMax(r), NoH>>
    [] m = "word_left" -> <<WPrev(T, r.e), NoH>>
    [] m = "word_right" -> <<WNext(T, r.e), NoH>>
    [] m = "line_start" -> <<ls[LineOf(ls, r.e) + 1], NoH>>
    [] m = "line_end" -> <<LET l == LineOf(ls, r.e) IN IF l < LineOf(ls, Len(T)) THEN GPrev(T, OffOfLine(T, ls, l + 1)) ELSE Len(T), NoH>>
    [] m = "up" -> Vert(T, ls, r, -1, modify)
    [] m = "down" -> Vert(T, ls, r, 1, modify)
    [] m = "page_up" -> Vert(T, ls, r, -Page(height), modify)
    [] m = "page_down" -> Vert(T, ls, r, Page(height), modify)
    [] m = "up_exact" -> VertExact(T, ls, r, TRUE, modify)
    [] m = "down_exact" -> VertExact(T, ls, r, FALSE, modify)
    [] m = "par_start" -> <<IF r.e <= 1 THEN 0 ELSE PrevLF(T, r.e - 1), NoH>>
    [] m = "par_end" -> <<LET q == NextLF(T, r.e) IN IF q = -1 THEN Len(T) ELSE GPrev(T, q), NoH>>
    [] m = "par_kill" -> <<LET q == NextLF(T, r.e) IN
                           IF q = -1 THEN Len(T) ELSE LET g == GPrev(T, q) IN IF g # r.e THEN g ELSE q, NoH>>
    [] m = "doc_start" -> <<0, NoH>>
    [] m = "doc_end" -> <<Len(T), NoH>>
MoveRegion(T, ls, height, m, r, modify) ==
  LET x == Motion(T, ls, height, m, r, modify) IN [s |-> IF modify THEN r.s ELSE x[1], e |-> x[1], h |-> x[2]]
MoveAll(T, ls, height, m, sel, modify) ==
  AddAll([k \in 1..Len(sel) |-> MoveRegion(T, ls, height, m, sel[k], modify)])

(* ---- gestures ---- *)
Unit(T, ls, p, g) ==
  CASE g = "point" -> <<p, p>>
    [] g = "word" -> SelWord(T, p)
    [] g = "line" -> LET real == LStarts(T) l == LineOf(real, ls[LineOf(ls, p) + 1]) IN
                     <<real[l + 1], OffOfLine(T, real, l + 1)>>
RangeRegion(T, ls, mn, mx, p, g) == LET u == Unit(T, ls, p, g) IN IF p >= mn THEN Reg(mn, u[2]) ELSE Reg(mx, u[1])

(* every region cut at the line ends it contains *)
RECURSIVE Pieces(_, _, _)
Pieces(T, a, b) == IF a >= b THEN <<>>
                   ELSE LET q == NextLF(T, a) IN
                        IF q = -1 \/ q > b THEN <<Reg(a, b)>> ELSE <<Reg(a, q - 1)>> \o Pieces(T, q, b)
IntoLines(T, sel) == AddAll(Flat([k \in 1..Len(sel) |-> IF IsCaret(sel[k]) THEN <<Caret(sel[k].e)>>
                                                       ELSE Pieces(T, RMin(sel[k]), RMax(sel[k]))]))
=============================================================================

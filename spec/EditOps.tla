------------------------------ MODULE EditOps ------------------------------
(* What each editing command does to a text, as an ascending sequence of        *)
(* replacements [a, b, x]: the units between a and b give way to x.             *)
EXTENDS Sel

Rep(a, b, x) == [a |-> a, b |-> b, x |-> x]
RECURSIVE PiecesOf(_, _, _, _)
PiecesOf(T, eds, k, from) == IF k > Len(eds) THEN Sub(T, from, Len(T))
                             ELSE Sub(T, from, eds[k].a) \o eds[k].x \o PiecesOf(T, eds, k + 1, eds[k].b)
Apply(T, eds) == PiecesOf(T, eds, 1, 0)
RECURSIVE IdsFrom(_, _, _, _, _)
IdsFrom(I, eds, k, from, nid) ==
  IF k > Len(eds) THEN Sub(I, from, Len(I))
  ELSE Sub(I, from, eds[k].a) \o [j \in 1..Len(eds[k].x) |-> nid + j] \o IdsFrom(I, eds, k + 1, eds[k].b, nid + Len(eds[k].x))
RECURSIVE Inserted(_, _)
Inserted(eds, k) == IF k = 0 THEN 0 ELSE Len(eds[k].x) + Inserted(eds, k - 1)
(* replacements must be ascending and apart *)
EdsOk(eds, n) == /\ \A k \in 1..Len(eds) : 0 <= eds[k].a /\ eds[k].a <= eds[k].b /\ eds[k].b <= n
                 /\ \A k \in 1..(Len(eds) - 1) : eds[k].b <= eds[k + 1].a

Over(sel, x) == [k \in 1..Len(sel) |-> Rep(RMin(sel[k]), RMax(sel[k]), x)]
Spaces(n) == [k \in 1..n |-> 32]
TabText(cfg, n) == IF cfg.tr THEN Spaces(n) ELSE <<9>>
RECURSIVE CatSeqs(_)
CatSeqs(ss) == Flat(ss)

(* drop what overlaps the replacement before *)
RECURSIVE Unions(_, _, _)
Unions(ds, k, last) == IF k > Len(ds) THEN <<>>
                       ELSE LET a == IMax(ds[k].a, last) IN
                            IF a < ds[k].b THEN <<Rep(a, ds[k].b, <<>>)>> \o Unions(ds, k + 1, ds[k].b)
                            ELSE Unions(ds, k + 1, last)
Backspace(T, sel, cfg) ==
  Unions([k \in 1..Len(sel) |-> IF IsCaret(sel[k]) THEN Rep(BackStart(T, sel[k].e, cfg), sel[k].e, <<>>)
                                ELSE Rep(RMin(sel[k]), RMax(sel[k]), <<>>)], 1, 0)
DelRegions(sel) == LET s == SelectSeq(sel, LAMBDA r : ~IsCaret(r)) IN Over(s, <<>>)
MotionRegions(T, ls, height, m, sel) ==
  AddAll([k \in 1..Len(sel) |-> IF IsCaret(sel[k]) THEN MoveRegion(T, ls, height, m, sel[k], TRUE) ELSE sel[k]])
RECURSIVE JoinLines(_)
JoinLines(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<LF>> \o JoinLines(Tail(ss))
Extract(T, sel) == LET s == SelectSeq(sel, LAMBDA r : ~IsCaret(r)) IN
                   JoinLines([k \in 1..Len(s) |-> Sub(T, RMin(s[k]), RMax(s[k]))])
HasRegion(sel) == \E k \in 1..Len(sel) : ~IsCaret(sel[k])

(* real lines a region touches: first and last; a region ending at a line's start does not touch that line *)
LineRange(T, r) == LET ls == LStarts(T)
                       f == LineOf(ls, RMin(r))
                       l == LineOf(ls, RMax(r)) IN
                   <<f, IF l > f /\ ls[l + 1] = RMax(r) THEN l - 1 ELSE l>>
LinesOf(T, sel) == UNION {LET x == LineRange(T, sel[k]) IN x[1]..x[2] : k \in 1..Len(sel)}

(* ascending sequence of a set of triples <<a, b, x>>, whose (a, b) differ *)
RECURSIVE SortEds(_)
SortEds(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
                   IN <<Rep(m[1], m[2], m[3])>> \o SortEds(S \ {m})
InsertTab(T, sel, cfg) ==
  LET ls == LStarts(T)
      One(r) == LET x == LineRange(T, r) IN
                IF x[2] > x[1] THEN {<<ls[l + 1], ls[l + 1], TabText(cfg, cfg.tab)>> : l \in x[1]..x[2]}
                ELSE {<<RMin(r), RMax(r), TabText(cfg, cfg.tab - (ColOf(T, ls, RMin(r)) % cfg.tab))>>}
  IN SortEds(UNION {One(sel[k]) : k \in 1..Len(sel)})
Indent(T, sel, cfg) ==
  LET ls == LStarts(T) S == Sorted(LinesOf(T, sel)) IN
  [k \in 1..Len(S) |-> Rep(ls[S[k] + 1], ls[S[k] + 1], TabText(cfg, cfg.tab))]
White(c) == c \in 9..13 \cup {32, 133, 160, 8232, 8233}
FirstBlack(s) == LET B == {k \in 1..Len(s) : ~White(s[k])} IN IF B = {} THEN 0 ELSE SMin(B)
Outdent(T, sel, cfg) ==
  LET ls == LStarts(T)
      S == Sorted(LinesOf(T, sel))
      tt == TabText(cfg, cfg.tab)
      One(l) == LET a == ls[l + 1]
                    lead == Sub(T, a, LineColToPos(T, ls, l, Len(tt)))
                    f == FirstBlack(lead) IN
                IF lead = tt THEN <<Rep(a, a + Len(tt), <<>>)>>
                ELSE IF f > 0 THEN LET b == LineColToPos(T, ls, l, BytesIn(lead, 0, f - 1)) IN IF b > a THEN <<Rep(a, b, <<>>)>> ELSE <<>>
                ELSE <<>>
  IN Flat([k \in 1..Len(S) |-> One(S[k])])

Duplicate(T, sel, cfg) ==
  LET ls == LStarts(T)
      Of(r) == LET l == LineOf(ls, IF IsCaret(r) THEN RMin(r) ELSE RMax(r)) IN
               <<ls[LineOf(ls, RMin(r)) + 1], OffOfLine(T, ls, l + 1)>>
      S == {Of(sel[k]) : k \in 1..Len(sel)}
      Txt(a, b) == Sub(T, a, b) \o (IF b > a /\ T[b] = LF THEN <<>> ELSE cfg.le)
      q == SortEds({<<x[1], x[2], <<>>>> : x \in S})
  IN [k \in 1..Len(q) |-> Rep(q[k].a, q[k].a, Txt(q[k].a, q[k].b))]

(* transposition: characters around carets, contents of regions in turn *)
RECURSIVE TransFrom(_, _, _, _, _)
TransFrom(T, sel, k, last, prev) ==
  IF k > Len(sel) THEN <<>> ELSE
  LET r == sel[k] ls == LStarts(T) IN
  IF IsCaret(r)
  THEN LET p == r.e
           a0 == GPrev(T, p)
           e0 == GNext(T, p)
           eol == (e0 = p \/ e0 = ls[LineOf(ls, e0) + 1]) /\ e0 # Len(T)
           m == IF eol THEN a0 ELSE p
           a == IF eol THEN GPrev(T, m) ELSE a0
           e == IF eol THEN GNext(T, m) ELSE e0
       IN IF a0 < last \/ a < last THEN TransFrom(T, sel, k + 1, last, prev)
          ELSE <<Rep(a, e, Sub(T, m, e) \o Sub(T, a, m))>> \o TransFrom(T, sel, k + 1, e, prev)
  ELSE LET cur == Sub(T, RMin(r), RMax(r)) IN
       <<Rep(IMax(RMin(r), last), RMax(r), prev)>> \o TransFrom(T, sel, k + 1, RMax(r), cur)
Transpose(T, sel) ==
  LET s == SelectSeq(sel, LAMBDA r : ~IsCaret(r)) IN
  TransFrom(T, sel, 1, 0, IF s = <<>> THEN <<>> ELSE Sub(T, RMin(Last(s)), RMax(Last(s))))

UpperOf(c) == IF c \in 97..122 THEN <<c - 32>> ELSE IF c = 233 THEN <<201>> ELSE IF c = 223 THEN <<83, 83>> ELSE <<c>>
LowerOf(c) == IF c \in 65..90 THEN <<c + 32>> ELSE IF c = 201 THEN <<233>> ELSE <<c>>
UpperS(s) == Flat([k \in 1..Len(s) |-> UpperOf(s[k])])
LowerS(s) == Flat([k \in 1..Len(s) |-> LowerOf(s[k])])
Cased(T, sel, up) ==
  [k \in 1..Len(sel) |-> LET s == Sub(T, RMin(sel[k]), RMax(sel[k])) IN
                         Rep(RMin(sel[k]), RMax(sel[k]), IF up THEN UpperS(s) ELSE LowerS(s))]
CapWord(s) == IF s = <<>> THEN <<>> ELSE UpperOf(s[1]) \o LowerS(Tail(s))
(* words from position p on, up to the end of the region *)
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(T, p, max, first) ==
  LET w == SelWord(T, p) IN
  IF ~first /\ w[1] >= max THEN <<>>
  ELSE <<w>> \o (IF w[2] = Len(T) \/ w[2] >= max THEN <<>> ELSE WordsFrom(T, WNext(T, w[2]), max, FALSE))
RECURSIVE CapFrom(_, _, _, _)
CapFrom(T, ws, k, last) ==
  IF k > Len(ws) THEN <<>>
  ELSE LET a == IMax(ws[k][1], last) IN
       IF a < ws[k][2] THEN <<Rep(a, ws[k][2], CapWord(Sub(T, a, ws[k][2])))>> \o CapFrom(T, ws, k + 1, ws[k][2])
       ELSE CapFrom(T, ws, k + 1, last)
Capitalize(T, sel) == CapFrom(T, Flat([k \in 1..Len(sel) |-> WordsFrom(T, RMin(sel[k]), RMax(sel[k]), TRUE)]), 1, 0)
CapSelection(sel) == AddAll([k \in 1..Len(sel) |-> Caret(RMax(sel[k]))])

(* numbers, as digits *)
Digit(c) == c \in 48..57
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
RECURSIVE IncD(_)
IncD(d) == IF d = <<>> THEN <<49>>
           ELSE LET n == Len(d) IN IF d[n] = 57 THEN IncD(SubSeq(d, 1, n - 1)) \o <<48>> ELSE [d EXCEPT ![n] = @ + 1]
RECURSIVE DecD(_)            \* of a positive number
DecD(d) == LET n == Len(d) IN IF d[n] = 48 THEN DecD(SubSeq(d, 1, n - 1)) \o <<57>> ELSE [d EXCEPT ![n] = @ - 1]
IsNumber(w) == LET d == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w IN
               d # <<>> /\ \A k \in 1..Len(d) : Digit(d[k])
Bump(w, up) ==
  LET d == Strip0(IF w[1] \in {43, 45} THEN Tail(w) ELSE w)
      zero == d = <<48>>
      neg == w[1] = 45 /\ ~zero
      Signed(s, x) == LET y == Strip0(x) IN IF s /\ y # <<48>> THEN <<45>> \o y ELSE y
  IN IF up THEN (IF neg THEN Signed(TRUE, DecD(d)) ELSE IncD(d))
     ELSE (IF zero THEN <<45, 49>> ELSE IF neg THEN Signed(TRUE, IncD(d)) ELSE Signed(FALSE, DecD(d)))
RECURSIVE NumFrom(_, _, _, _, _)
NumFrom(T, sel, k, last, up) ==
  IF k > Len(sel) THEN <<>> ELSE
  LET w == SelWord(T, sel[k].e)
      a == IF w[1] > 0 /\ T[w[1]] = 45 THEN w[1] - 1 ELSE w[1]
      s == Sub(T, a, w[2]) IN
  IF a >= last /\ IsNumber(s) THEN <<Rep(a, w[2], Bump(s, up))>> \o NumFrom(T, sel, k + 1, w[2], up)
  ELSE NumFrom(T, sel, k + 1, last, up)
ChangeNumber(T, sel, up) == NumFrom(T, sel, 1, 0, up)

Surround(sel, a, b) == Flat([k \in 1..Len(sel) |-> <<Rep(RMin(sel[k]), RMin(sel[k]), a), Rep(RMax(sel[k]), RMax(sel[k]), b)>>])
RECURSIVE SplitLF(_, _)
SplitLF(x, acc) == IF x = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
                   ELSE IF x[1] = LF
                        THEN <<IF acc # <<>> /\ acc[Len(acc)] = CR THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc>> \o SplitLF(Tail(x), <<>>)
                        ELSE SplitLF(Tail(x), Append(acc, x[1]))
PasteLines(x) == SplitLF(x, <<>>)
CountLines(x) == 1 + Cardinality({k \in 1..Len(x) : x[k] = LF}) - (IF x # <<>> /\ x[Len(x)] = LF THEN 1 ELSE 0)
Paste(sel, x) == IF Len(sel) = 1 \/ Len(sel) # CountLines(x) THEN Over(sel, x)
                 ELSE LET l == PasteLines(x) IN [k \in 1..Len(sel) |-> Rep(RMin(sel[k]), RMax(sel[k]), IF k <= Len(l) THEN l[k] ELSE <<>>)]
=============================================================================

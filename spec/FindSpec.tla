------------------------------ MODULE FindSpec ------------------------------
(* Searches: a query is [id, pat, cs, ww, isre, re, shown]: pat the characters   *)
(* as typed; re, for regular expressions, a sequence of atoms                   *)
(* [set, neg, mn, mx] (mx = -1: no limit), or [anchor |-> TRUE] for ^.          *)
EXTENDS EditOps

Lower1(c) == IF c \in 65..90 THEN c + 32 ELSE IF c = 201 THEN 233 ELSE c
EqC(a, b, cs) == IF cs THEN a = b ELSE Lower1(a) = Lower1(b)
RECURSIVE LitAt(_, _, _, _, _)
LitAt(T, p, pat, k, cs) == k > Len(pat) \/ (p + k <= Len(T) /\ EqC(T[p + k], pat[k], cs) /\ LitAt(T, p, pat, k + 1, cs))

InSet(c, a, cs) == LET m == \E k \in 1..Len(a.set) : EqC(c, a.set[k], cs) IN IF a.neg THEN ~m /\ c # LF ELSE m
(* greedy, first alternative first: the end of the match from p, or -1 *)
RECURSIVE ReAt(_, _, _, _, _, _, _, _)
ReAt(T, lo, hi, p, re, k, n, cs) ==       \* n: how often atom k was taken already
  IF k > Len(re) THEN p
  ELSE IF re[k].anchor THEN (IF p = lo THEN ReAt(T, lo, hi, p, re, k + 1, 0, cs) ELSE -1)
  ELSE LET more == IF p < hi /\ (re[k].mx = -1 \/ n < re[k].mx) /\ InSet(T[p + 1], re[k], cs)
                   THEN ReAt(T, lo, hi, p + 1, re, k, n + 1, cs) ELSE -1
       IN IF more # -1 THEN more
          ELSE IF n >= re[k].mn THEN ReAt(T, lo, hi, p, re, k + 1, 0, cs) ELSE -1

WholeWord(T, a, b) == WPrev(T, a + 1) = a /\ WNext(T, b - 1) = b

MatchEnd(T, lo, hi, p, q) ==
  IF q.isre THEN ReAt(T, lo, hi, p, q.re, 1, 0, q.cs)
  ELSE IF p + Len(q.pat) <= hi /\ LitAt(T, p, q.pat, 1, q.cs) THEN p + Len(q.pat) ELSE -1
RECURSIVE ScanFrom(_, _, _, _, _)
ScanFrom(T, lo, hi, p, q) ==
  IF p >= hi THEN <<>>
  ELSE LET e == MatchEnd(T, lo, hi, p, q) IN
       IF e <= p THEN ScanFrom(T, lo, hi, p + 1, q)
       ELSE IF q.ww /\ ~WholeWord(T, p, e) THEN ScanFrom(T, lo, hi, e, q)
       ELSE <<Reg(p, e)>> \o ScanFrom(T, lo, hi, e, q)
(* a regular expression that does not mention line ends looks at one line at a time *)
RECURSIVE ByLine(_, _, _, _)
ByLine(T, ls, l, q) == IF l > Len(ls) THEN <<>>
                       ELSE LET hi == IF l = Len(ls) THEN Len(T) ELSE ls[l + 1] IN
                            ScanFrom(T, ls[l], hi, ls[l], q) \o ByLine(T, ls, l + 1, q)
MentionsLF(q) == \E k \in 1..Len(q.re) : ~q.re[k].anchor /\ ((q.re[k].neg /\ q.re[k].set # <<>>) \/ \E j \in 1..Len(q.re[k].set) : q.re[k].set[j] \in {LF, CR})
Matches(T, q) ==
  IF q.pat = <<>> THEN <<>>
  ELSE IF q.isre /\ ~MentionsLF(q) THEN ByLine(T, LStarts(T), 1, q)
  ELSE ScanFrom(T, 0, Len(T), 0, q)

(* ---- next and previous ---- *)
FirstOf(s, P(_)) == LET m == SelectSeq(s, P) IN IF m = <<>> THEN <<>> ELSE <<m[1]>>
LastOf(s, P(_)) == LET m == SelectSeq(s, P) IN IF m = <<>> THEN <<>> ELSE <<m[Len(m)]>>
Untouched(sel, o) == InRange(sel, o.s, o.e) = <<>>
NextIn(occ, sel, wrapped) ==
  LET r == Last(sel) from == IF IsCaret(r) THEN r.e ELSE RMax(r) + 1 IN
  IF wrapped THEN FirstOf(occ, LAMBDA o : Untouched(sel, o)) ELSE FirstOf(occ, LAMBDA o : o.e >= from)
PrevIn(occ, sel, wrapped) ==
  LET r == Last(sel) IN
  IF wrapped THEN LastOf(occ, LAMBDA o : Untouched(sel, o)) ELSE LastOf(occ, LAMBDA o : o.s < RMin(r))
Key(o, r, back, n) == IF back THEN (IF o.e > RMax(r) THEN 2 * n - o.e ELSE RMax(r) - o.e)
                      ELSE (IF o.s < RMin(r) THEN o.s + n ELSE o.s - RMin(r))
RECURSIVE Best(_, _, _, _)
Best(cs, r, back, n) == IF Len(cs) = 1 THEN cs
                        ELSE LET b == Best(SubSeq(cs, 1, Len(cs) - 1), r, back, n) c == cs[Len(cs)] IN
                             IF Key(c, r, back, n) < Key(b[1], r, back, n) THEN <<c>> ELSE b
Pass(T, occs, sel, back, wrapped) ==
  LET cs == Flat([k \in 1..Len(occs) |-> IF back THEN PrevIn(occs[k], sel, wrapped) ELSE NextIn(occs[k], sel, wrapped)]) IN
  IF cs = <<>> THEN <<>> ELSE Best(cs, Last(sel), back, Len(T))
FindStep(T, occs, sel, back, wrap) ==
  LET a == Pass(T, occs, sel, back, FALSE) IN IF a = <<>> /\ wrap THEN Pass(T, occs, sel, back, TRUE) ELSE a
SelectFound(sel, o, how) ==
  CASE how = "set" -> <<o>>
    [] how = "add" -> AddRegion(sel, o)
    [] how = "add_removing_current" ->
         AddRegion(IF IsCaret(Last(sel)) THEN sel ELSE DeleteRange(sel, RMin(Last(sel)), RMax(Last(sel)), FALSE), o)
    [] OTHER -> sel
=============================================================================

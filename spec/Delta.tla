------------------------------- MODULE Delta -------------------------------
(***************************************************************************)
(* Descriptions of edits (xi_rope::delta::Delta).  A delta over a base of   *)
(* n units is a sequence of elements: copies of ascending ranges of the     *)
(* base and insertions.  Everything a delta offers is defined here from     *)
(* what it does to a text.                                                  *)
(***************************************************************************)
EXTENDS Subset

C(b, e) == [k |-> "c", b |-> b, e |-> e, ids |-> <<>>]
I(ids) == [k |-> "i", b |-> 0, e |-> 0, ids |-> ids]

Wf(els, n) == /\ \A j \in 1..Len(els) : els[j].k = "c" => els[j].b <= els[j].e /\ els[j].e <= n
              /\ \A j, l \in 1..Len(els) : (j < l /\ els[j].k = "c" /\ els[l].k = "c") => els[j].e <= els[l].b
(* as a builder makes them: no empty elements, no two copies that could be one, no two insertions in a row *)
Normal(els, n) == /\ \A j \in 1..Len(els) : IF els[j].k = "c" THEN els[j].b < els[j].e ELSE els[j].ids # <<>>
                  /\ \A j \in 1..(Len(els) - 1) :
                       /\ ~(els[j].k = "i" /\ els[j + 1].k = "i")
                       /\ (els[j].k = "c" /\ els[j + 1].k = "c") => els[j].e < els[j + 1].b

Apply(els, base) == DApply(els, base)
IdSeq(n) == [j \in 1..n |-> j]                 \* the base text 1..n: every unit different
Result(els, n) == Apply(els, IdSeq(n))
OldAt(els, n) == Result(els, n)                \* units <= n are old ones
Kept(els, n) == {Result(els, n)[j] : j \in 1..Len(Result(els, n))} \cap 1..n
NewLen(els, n) == Len(Result(els, n))
InsLen(els, n) == NewLen(els, n) - Cardinality(Kept(els, n))

(* longest common prefix and suffix of base and result *)
RECURSIVE Lcp(_, _, _)
Lcp(a, b, k) == IF k < Len(a) /\ k < Len(b) /\ a[k + 1] = b[k + 1] THEN Lcp(a, b, k + 1) ELSE k
Rev(a) == [j \in 1..Len(a) |-> a[Len(a) + 1 - j]]

(* a summary <<a, b, l>>: only [a, b) changes, it becomes l units *)
SummaryOk(els, n, a, b, l) ==
  LET r == Result(els, n) IN
  /\ a <= b /\ b <= n
  /\ Len(r) = a + l + (n - b)
  /\ SubSeq(r, 1, a) = SubSeq(IdSeq(n), 1, a)
  /\ SubSeq(r, Len(r) - (n - b) + 1, Len(r)) = SubSeq(IdSeq(n), b + 1, n)
SummaryTight(els, n, a, b) ==
  LET r == Result(els, n)
      p == Lcp(IdSeq(n), r, 0)
      s == Lcp(Rev(IdSeq(n)), Rev(r), 0)
  IN a = p /\ b = IMax(p, n - s)

(* where a position of the base lands *)
RECURSIVE LastKept(_, _, _)
LastKept(r, k, P) == IF k = 0 THEN 0 ELSE IF r[k] \in P THEN k ELSE LastKept(r, k - 1, P)
RECURSIVE FirstKept(_, _, _)
FirstKept(r, k, P) == IF k > Len(r) THEN Len(r) ELSE IF r[k] \in P THEN k - 1 ELSE FirstKept(r, k + 1, P)
Trans(els, n, ix, after) ==
  LET r == Result(els, n)
      low == LastKept(r, Len(r), 1..ix)            \* just after the last kept unit before ix
      high == FirstKept(r, 1, (ix + 1)..n)         \* just before the first kept unit from ix on
  IN IF ~after /\ (ix = 0 \/ ix \in Kept(els, n)) THEN low ELSE high

(* a range may be called untouched only if it is still there in one piece *)
UntouchedOk(els, n, s, e) ==
  LET r == Result(els, n) IN
  s >= e \/ \E k \in 0..(Len(r) - (e - s)) : \A j \in 1..(e - s) : r[k + j] = s + j

(* insertions: <<old offset, new offset, length>> of each insert element *)
RECURSIVE InsFrom(_, _, _, _)
InsFrom(els, j, old, new) ==
  IF j > Len(els) THEN <<>>
  ELSE IF els[j].k = "c" THEN InsFrom(els, j + 1, els[j].e, new + els[j].e - els[j].b)
  ELSE <<<<old, new, Len(els[j].ids)>>>> \o InsFrom(els, j + 1, old, new + Len(els[j].ids))
Inserts(els) == InsFrom(els, 1, 0, 0)

(* deletions reported: the maximal removed ranges, each with a place in the new text inside the gap *)
DelMask(els, n) == [j \in 1..n |-> IF j \in Kept(els, n) THEN 0 ELSE 1]
Deletions(els, n) == Runs(DelMask(els, n), LAMBDA x : x = 1)
DelsOk(els, n, ds) ==
  LET w == Deletions(els, n) IN
  /\ Len(ds) = Len(w)
  /\ \A j \in 1..Len(w) : /\ ds[j][1] = w[j][1] /\ ds[j][3] = w[j][2] - w[j][1]
                          /\ LET r == Result(els, n) IN
                             /\ ds[j][2] >= LastKept(r, Len(r), 1..w[j][1])
                             /\ ds[j][2] <= FirstKept(r, 1, (w[j][2] + 1)..n)

(* factoring: pure insertions, then pure deletions *)
PureInsert(els, n) == Kept(els, n) = 1..n
FactorOk(els, n, ins, del) ==
  /\ Wf(ins, n) /\ PureInsert(ins, n)
  /\ Len(del) = n /\ \A j \in 1..n : del[j] \in {0, 1}
  /\ LET u == Result(ins, n)
         mask == [j \in 1..Len(u) |-> IF u[j] <= n THEN del[u[j]] ELSE 0]
     IN DeleteFrom(mask, u) = Result(els, n)
InsertedMask(els, n) == LET r == Result(els, n) IN [j \in 1..Len(r) |-> IF r[j] > n THEN 1 ELSE 0]

(* recombining: a text is what is left of 1..N without from; it becomes what is left without to *)
SynthOk(from, to, els) ==
  LET N == Len(from)
      old == DeleteFrom(from, IdSeq(N))
      new == DeleteFrom(to, IdSeq(N))
  IN /\ Wf(els, Len(old))
     /\ Apply(els, old) = new
     /\ \A j \in 1..Len(els) : els[j].k = "i" => \A q \in 1..Len(els[j].ids) : from[els[j].ids[q]] # 0

(* insertions of a delta as <<gap, ids>>, for moving them between texts *)
RECURSIVE GapsFrom(_, _, _)
GapsFrom(els, j, old) ==
  IF j > Len(els) THEN <<>>
  ELSE IF els[j].k = "c" THEN GapsFrom(els, j + 1, els[j].e)
  ELSE <<[gap |-> old, ids |-> els[j].ids]>> \o GapsFrom(els, j + 1, old)
Gaps(els) == GapsFrom(els, 1, 0)

(* single changes *)
OneInsert(els, n) == PureInsert(els, n) /\ Cardinality({j \in 1..Len(els) : els[j].k = "i"}) = 1
OneDelete(els, n) == InsLen(els, n) = 0 /\ Len(Deletions(els, n)) = 1
Nothing(els, n) == Result(els, n) = IdSeq(n)
=============================================================================

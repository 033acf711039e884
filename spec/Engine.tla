------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The document with all of its history (xi_rope::engine::Engine), seen    *)
(* from outside.                                                            *)
(*                                                                         *)
(* There is one sequence of all characters ever inserted, in document      *)
(* order ("the union string").  Every character remembers which revision   *)
(* inserted it and which revisions deleted it.  Revisions are numbered in  *)
(* the order they were made: 1 is the empty root.  An edit belongs to an   *)
(* undo group; a set of groups is undone.  A character shows exactly when  *)
(* its inserting group is not undone and all groups that deleted it are.   *)
(* Discarding history ("gc") changes nothing that can be seen: it only     *)
(* freezes the undone-ness of the discarded groups.                        *)
(***************************************************************************)
EXTENDS VUtil

(* A document is [U, revs, und, frozen, floor]:                              *)
(*   U      sequence of [id, ins, dels]                                     *)
(*   revs   sequence of [kind, prio, grp, und] (und: undone after it)       *)
(*   und    undone groups now                                               *)
(*   frozen groups whose history was discarded                              *)
(*   floor  revisions from here on are promised to be readable              *)
(*   gone   revisions that were discarded                                   *)

RootRev == [kind |-> "undo", prio |-> 0, grp |-> 0, und |-> {}]

EmptyDoc == [U |-> <<>>, revs |-> <<RootRev>>, und |-> {}, frozen |-> {}, floor |-> 1, gone |-> {}]

NRev(d) == Len(d.revs)

(* groups undone at revision k (frozen groups do not change any more) *)
UndAt(d, k) == d.revs[k].und

Visible(d, c, k) ==
  LET und == UndAt(d, k) IN
  /\ c.ins <= k
  /\ d.revs[c.ins].grp \notin und
  /\ \A x \in c.dels : x <= k => d.revs[x].grp \in und

Text(d, k) == LET S == SelectSeq(d.U, LAMBDA c : Visible(d, c, k)) IN [i \in 1..Len(S) |-> S[i].id]
HeadText(d) == Text(d, NRev(d))

(* Where an insertion made at gap p of the text of revision k goes in the   *)
(* union string of today: the result j means "just before position j".     *)
(* Directly before the character that followed the gap (so after anything   *)
(* hidden there), and relative to what later revisions put at the same      *)
(* place: after it if its priority is not greater, before it otherwise.     *)
RECURSIVE Walk(_, _, _, _, _)
Walk(d, prio, l, r, x) ==
  IF x > NRev(d) THEN r
  ELSE LET M == {j \in (l + 1)..(r - 1) : d.U[j].ins = x} IN
       IF M = {} THEN Walk(d, prio, l, r, x + 1)
       ELSE IF prio >= d.revs[x].prio
            THEN Walk(d, prio, SMax(M), r, x + 1)
            ELSE Walk(d, prio, l, SMin(M), x + 1)

Slot(d, k, p, prio) ==
  LET n == Len(d.U)
      vis == SelectSeq([j \in 1..n |-> j], LAMBDA j : Visible(d, d.U[j], k))
      r == IF p < Len(vis) THEN vis[p + 1] ELSE n + 1
      P == {j \in 1..(r - 1) : d.U[j].ins <= k}
      l == IF P = {} THEN 0 ELSE SMax(P)
  IN Walk(d, prio, l, r, k + 1)

(* insertions of a delta: for each the gap it is at, which is the end of the last copy before it *)
RECURSIVE GapBefore(_, _)
GapBefore(els, i) == IF i = 0 THEN 0
                     ELSE IF els[i].k = "c" THEN els[i].e ELSE GapBefore(els, i - 1)

Edited(d, base, prio, grp, els) ==
  LET n == Len(d.U)
      me == NRev(d) + 1
      btxt == SelectSeq([j \in 1..n |-> j], LAMBDA j : Visible(d, d.U[j], base))
      kept == DKept(els)
      del == {btxt[i] : i \in (1..Len(btxt)) \ kept}
      insIdx == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].k = "i")
      slots == [i \in 1..Len(insIdx) |-> Slot(d, base, GapBefore(els, insIdx[i]), prio)]
      insAt(j) == Flat([i \in 1..Len(insIdx) |->
                     IF slots[i] = j
                     THEN [m \in 1..Len(els[insIdx[i]].ids) |->
                             [id |-> els[insIdx[i]].ids[m], ins |-> me, dels |-> {}]]
                     ELSE <<>>])
      old(j) == IF j \in del THEN [d.U[j] EXCEPT !.dels = @ \cup {me}] ELSE d.U[j]
      newU == Flat([j \in 1..(n + 1) |-> IF j <= n THEN Append(insAt(j), old(j)) ELSE insAt(j)])
  IN [d EXCEPT !.U = newU,
               !.revs = Append(@, [kind |-> "edit", prio |-> prio, grp |-> grp, und |-> d.und])]

(* undo means: make exactly these groups undone (the discarded ones stay as they were) *)
Undone(d, grps) ==
  LET u == (grps \ d.frozen) \cup (d.und \cap d.frozen) IN
  [d EXCEPT !.und = u,
            !.revs = Append(@, [kind |-> "undo", prio |-> 0, grp |-> 0, und |-> u])]

Collected(d, grps) ==
  [d EXCEPT !.frozen = @ \cup grps, !.floor = NRev(d),
            !.gone = @ \cup {k \in 2..(NRev(d) - 1) : d.revs[k].kind = "edit" /\ d.revs[k].grp \in grps}]

(* the document a new engine holds: an edit of group 0 made on the root *)
NewDoc(ids) == IF ids = <<>> THEN EmptyDoc
               ELSE Edited(EmptyDoc, 1, 0, 0, <<[k |-> "i", b |-> 0, e |-> 0, ids |-> ids]>>)

(* how often a character counts as deleted at revision k, seen from now *)
DelCount(d, c, k) ==
  IF c.ins > k THEN 1
  ELSE (IF d.revs[c.ins].grp \in UndAt(d, k) THEN 1 ELSE 0)
       + Cardinality({x \in c.dels : x <= k /\ d.revs[x].grp \notin UndAt(d, k)})

SameState(d, a, b) == \A j \in 1..Len(d.U) : DelCount(d, d.U[j], a) = DelCount(d, d.U[j], b)
=============================================================================

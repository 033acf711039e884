----------------------------- MODULE EngineImpl -----------------------------
(***************************************************************************)
(* The algorithm of xi_rope::engine::Engine, transcribed: revisions with   *)
(* insert and delete sets relative to the union string of their time, one  *)
(* count per character of the union string for the current deletions, and  *)
(* history rewritten by gc.  EngineMC checks, for all histories within its *)
(* bounds, that it shows exactly what the specification Engine says.       *)
(***************************************************************************)
EXTENDS Subset

IRoot == [rid |-> 1, kind |-> "undo", prio |-> 0, grp |-> 0, ins |-> <<>>, del |-> <<>>,
          tog |-> {}, xor |-> <<>>, mu |-> 0]
IEmpty == [u |-> <<>>, del |-> <<>>, und |-> {}, revs |-> <<IRoot>>, cnt |-> 1]

SymDiff(a, b) == (a \ b) \cup (b \ a)

RECURSIVE Back(_, _, _, _, _)
Back(e, k, ix, del, und) ==       \* walk back from revision k to just before index ix
  LET inv == ix # 0 IN
  IF k < (IF ix < 0 THEN -ix ELSE ix) THEN del
  ELSE LET r == e.revs[k] IN
       IF r.kind = "edit"
       THEN Back(e, k - 1, ix, SShrink(IF r.grp \in und THEN del ELSE SSubtract(del, r.del), r.ins), und)
       ELSE IF ix > 0 THEN Back(e, k - 1, ix, SXor(del, r.xor), SymDiff(und, r.tog))
                      ELSE Back(e, k - 1, ix, del, und)

(* deletions as they were before revision index ix (undos inverted or not) *)
DelBefore(e, ix, invert) == Back(e, Len(e.revs), IF invert THEN ix ELSE -ix, e.del, e.und)
DelAt(e, ix) == DelBefore(e, ix + 1, TRUE)

RECURSIVE Fwd(_, _, _)
Fwd(e, k, del) == IF k > Len(e.revs) THEN del
                  ELSE Fwd(e, k + 1, IF e.revs[k].kind = "edit" THEN SUnionInto(del, e.revs[k].ins) ELSE del)
DelCurAt(e, ix) == Fwd(e, ix + 1, DelAt(e, ix))

ITextAt(e, ix) == DeleteFrom(DelCurAt(e, ix), e.u)
IHead(e) == DeleteFrom(e.del, e.u)

IxOf(e, rid) == LET S == {k \in 1..Len(e.revs) : e.revs[k].rid = rid} IN IF S = {} THEN 0 ELSE SMax(S)

InsOfDelta(els) ==
  LET gap[i \in 0..Len(els)] == IF i = 0 THEN 0 ELSE IF els[i].k = "c" THEN els[i].e ELSE gap[i - 1]
      ix == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].k = "i")
  IN [i \in 1..Len(ix) |-> [gap |-> gap[ix[i]], ids |-> els[ix[i]].ids]]

RECURSIVE Over(_, _, _, _)
Over(e, k, x, prio) ==            \* x = [ins, del], carried over the later revisions
  IF k > Len(e.revs) THEN x
  ELSE LET r == e.revs[k] IN
       IF r.kind = "edit" /\ NonZeros(r.ins) > 0
       THEN Over(e, k + 1, [ins |-> IExpand(x.ins, r.ins, prio >= r.prio), del |-> SExpand(x.del, r.ins)], prio)
       ELSE Over(e, k + 1, x, prio)

IEdit(e, rid, prio, grp, els) ==
  LET ix == IxOf(e, rid)
      dar == DelAt(e, ix)
      blen == Zeros(dar)
      kept == DKept(els)
      d0 == [i \in 1..blen |-> IF i \in kept THEN 0 ELSE 1]
      x == Over(e, ix + 1, [ins |-> IExpand(InsOfDelta(els), dar, TRUE), del |-> SExpand(d0, dar)], prio)
      newIns == IInserted(x.ins, Len(e.u))
      newDel == SExpand(x.del, newIns)
      cur == SExpand(e.del, newIns)
      after == SUnion(cur, IF grp \in e.und THEN newIns ELSE newDel)
      last == e.revs[Len(e.revs)]
  IN [e EXCEPT !.u = IApply(x.ins, e.u), !.del = after, !.cnt = @ + 1,
               !.revs = Append(@, [rid |-> e.cnt + 1, kind |-> "edit", prio |-> prio, grp |-> grp,
                                   ins |-> newIns, del |-> newDel, tog |-> {}, xor |-> <<>>,
                                   mu |-> IMax(grp, last.mu)])]

RECURSIVE Redo(_, _, _, _)
Redo(e, k, del, groups) ==
  IF k > Len(e.revs) THEN del
  ELSE LET r == e.revs[k] IN
       IF r.kind # "edit" THEN Redo(e, k + 1, del, groups)
       ELSE IF r.grp \in groups THEN Redo(e, k + 1, SUnionInto(del, r.ins), groups)
       ELSE Redo(e, k + 1, SUnion(SExpand(del, r.ins), r.del), groups)

FirstCandidate(e, tog) ==
  IF tog = {} THEN Len(e.revs) + 1
  ELSE LET S == {k \in 1..Len(e.revs) : e.revs[k].mu < SMin(tog)} IN IF S = {} THEN 1 ELSE SMax(S) + 1

IUndo(e, groups) ==
  LET tog == SymDiff(e.und, groups)
      fc == FirstCandidate(e, tog)
      del == Redo(e, fc, DelBefore(e, fc, FALSE), groups)
      last == e.revs[Len(e.revs)]
  IN [e EXCEPT !.del = del, !.und = groups, !.cnt = @ + 1,
               !.revs = Append(@, [rid |-> e.cnt + 1, kind |-> "undo", prio |-> 0, grp |-> 0, ins |-> <<>>,
                                   del |-> <<>>, tog |-> tog, xor |-> SXor(e.del, del), mu |-> last.mu])]

RECURSIVE GcDels(_, _, _, _)
GcDels(e, k, dels, G) ==
  IF k > Len(e.revs) THEN dels
  ELSE LET r == e.revs[k]
           undone == r.grp \in e.und
           retain == k = Len(e.revs) IN
       IF r.kind # "edit" THEN GcDels(e, k + 1, dels, G)
       ELSE IF r.grp \in G /\ (undone \/ ~retain)
            THEN GcDels(e, k + 1, IF undone THEN SUnionInto(dels, r.ins)
                                  ELSE SUnion(SExpand(dels, r.ins), r.del), G)
            ELSE GcDels(e, k + 1, SExpand(dels, r.ins), G)

RECURSIVE GcRevs(_, _, _, _, _)
GcRevs(e, k, gd, drop, G) ==
  IF k = 0 THEN <<>>
  ELSE LET r == e.revs[k]
           last == k = Len(e.revs) IN
       IF r.kind = "edit"
       THEN LET ins == SExpand(r.ins, drop) IN
            IF last \/ r.grp \notin G
            THEN LET del == IF r.grp \in G /\ r.grp \in e.und THEN SNew(Len(gd)) ELSE SExpand(r.del, drop)
                     r2 == [r EXCEPT !.ins = SShrink(ins, gd), !.del = SShrink(del, gd)] IN
                 Append(GcRevs(e, k - 1, SShrink(gd, ins), SShrink(drop, ins), G), r2)
            ELSE GcRevs(e, k - 1, gd, SUnion(drop, ins), G)
       ELSE IF last
            THEN Append(GcRevs(e, k - 1, gd, drop, G), [r EXCEPT !.xor = SShrink(r.xor, gd), !.tog = @ \ G])
            ELSE GcRevs(e, k - 1, gd, drop, G)

FirstLen(e) == IF e.revs[1].kind = "edit" THEN Zeros(e.revs[1].ins) ELSE Len(e.revs[1].xor)

IGc(e, G) ==
  LET gd == GcDels(e, 1, SNew(FirstLen(e)), G) IN
  [e EXCEPT !.u = DeleteFrom(gd, e.u), !.del = SShrink(e.del, gd),
            !.revs = GcRevs(e, Len(e.revs), gd, SNew(Len(gd)), G)]
=============================================================================

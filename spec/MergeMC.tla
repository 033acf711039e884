------------------------------ MODULE MergeMC ------------------------------
(***************************************************************************)
(* The merge algorithm of xi_rope::engine, transcribed (rearrange,         *)
(* compute_deltas, compute_transforms, rebase), run by several replicas in *)
(* every schedule of a few edits and merges: replicas that have received   *)
(* the same edits show the same text, nothing is lost, duplicated or       *)
(* reordered.  Also the source of the schedules replayed on the real code. *)
(***************************************************************************)
EXTENDS Subset, Json

CONSTANTS Reps, MaxEdits, Steps, Prios, Emit

VARIABLES rep, nedits, hist, alive, ended
vars == <<rep, nedits, hist, alive, ended>>

R0 == [u |-> <<>>, del |-> <<>>, revs |-> <<>>]
Has(r) == {rep[r].revs[k].rid : k \in 1..Len(rep[r].revs)}
TextOf(x) == DeleteFrom(x.del, x.u)

Ge(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] >= q[2])

(* an edit of the current text: one character inserted at a gap, or the characters [a, b) deleted *)
LocalEdit(x, rid, pri, gap, id, a, b) ==
  LET ins == IExpand(IF id = 0 THEN <<>> ELSE <<[gap |-> gap, ids |-> <<id>>]>>, x.del, TRUE)
      del == SExpand([i \in 1..Zeros(x.del) |-> IF i > a /\ i <= b THEN 1 ELSE 0], x.del)
      newIns == IInserted(ins, Len(x.u))
      newDel == SExpand(del, newIns)
  IN [u |-> IApply(ins, x.u), del |-> SUnion(SExpand(x.del, newIns), newDel),
      revs |-> Append(x.revs, [rid |-> rid, pri |-> pri, ins |-> newIns, del |-> newDel])]

RECURSIVE Rearr(_, _, _, _)
Rearr(revs, k, common, s) ==
  IF k = 0 THEN <<>>
  ELSE LET r == revs[k] IN
       IF r.rid \in common THEN Rearr(revs, k - 1, common, SUnionInto(r.ins, s))
       ELSE LET ti == SExpand(r.ins, s) IN
            Append(Rearr(revs, k - 1, common, SShrink(s, ti)),
                   [r EXCEPT !.ins = ti, !.del = SExpand(r.del, s)])

RECURSIVE Deltas(_, _, _, _)
Deltas(revs, k, u, all) ==
  IF k = 0 THEN <<>>
  ELSE LET r == revs[k]
           older == SUnionInto(r.ins, all)
           mine == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : older[i] # 0 /\ all[i] = 0)
       IN Append(Deltas(revs, k - 1, u, older),
                 [rid |-> r.rid, pri |-> r.pri, del |-> r.del,
                  ins |-> [j \in 1..Len(mine) |-> [gap |-> ZerosBefore(older, mine[j]), ids |-> <<u[mine[j]]>>]]])

RECURSIVE Transforms(_, _, _)
Transforms(revs, k, out) ==
  IF k > Len(revs) THEN out
  ELSE LET r == revs[k] IN
       IF NonZeros(r.ins) = 0 THEN Transforms(revs, k + 1, out)
       ELSE IF out # <<>> /\ out[Len(out)].pri = r.pri
            THEN Transforms(revs, k + 1, [out EXCEPT ![Len(out)].ins = SUnionInto(@, r.ins)])
            ELSE Transforms(revs, k + 1, Append(out, [pri |-> r.pri, ins |-> r.ins]))

RECURSIVE OverAll(_, _, _, _)
OverAll(op, exp, k, next) ==
  IF k > Len(exp) THEN [op |-> op, next |-> next]
  ELSE LET t == exp[k]
           ins == IExpand(op.ins, t.ins, Ge(op.pri, t.pri))
           nt == SExpand(t.ins, IInserted(ins, Len(t.ins)))
       IN OverAll([op EXCEPT !.ins = ins, !.del = SExpand(op.del, nt)], exp, k + 1,
                  Append(next, [pri |-> t.pri, ins |-> nt]))

RECURSIVE Rebase(_, _, _, _)
Rebase(x, ops, k, exp) ==
  IF k > Len(ops) THEN x
  ELSE LET o == OverAll(ops[k], exp, 1, <<>>)
           newIns == IInserted(o.op.ins, Len(x.u))
       IN Rebase([u |-> IApply(o.op.ins, x.u), del |-> SUnion(SExpand(x.del, newIns), o.op.del),
                  revs |-> Append(x.revs, [rid |-> o.op.rid, pri |-> o.op.pri, ins |-> newIns, del |-> o.op.del])],
                 ops, k + 1, o.next)

Merged(x, y) ==
  LET ids(z) == {z.revs[k].rid : k \in 1..Len(z.revs)}
      common == ids(x) \cap ids(y)
      an == Rearr(x.revs, Len(x.revs), common, SNew(Len(x.u)))
      bn == Rearr(y.revs, Len(y.revs), common, SNew(Len(y.u)))
  IN Rebase(x, Deltas(bn, Len(bn), y.u, SNew(Len(y.u))), 1, Transforms(an, 1, <<>>))

(* ---------------------------------------------------------------- schedules *)
Init == /\ rep = [r \in 1..Reps |-> R0] /\ nedits = 0
        /\ hist = <<[op |-> "new", replicas |-> Reps]>>
        /\ alive = <<>>               \* edit -> [ins, del] ids
        /\ ended = FALSE

More == Len(hist) <= Steps
Rec(x) == hist' = IF Emit THEN Append(hist, x) ELSE Append(hist, x.op)

Insert(r, pri, gap) ==
  /\ More /\ nedits < MaxEdits
  /\ gap <= Len(TextOf(rep[r]))
  /\ nedits' = nedits + 1
  /\ rep' = [rep EXCEPT ![r] = LocalEdit(@, nedits + 1, <<pri, r>>, gap, nedits + 1, 0, 0)]
  /\ alive' = Append(alive, [ins |-> {nedits + 1}, del |-> {}])
  /\ Rec([op |-> "ins", r |-> r, prio |-> pri, at |-> gap])
  /\ UNCHANGED ended

Delete(r, a) ==
  /\ More /\ nedits < MaxEdits
  /\ a < Len(TextOf(rep[r]))
  /\ nedits' = nedits + 1
  /\ rep' = [rep EXCEPT ![r] = LocalEdit(@, nedits + 1, <<1, r>>, 0, 0, a, a + 1)]
  /\ alive' = Append(alive, [ins |-> {}, del |-> {TextOf(rep[r])[a + 1]}])
  /\ Rec([op |-> "del", r |-> r, prio |-> 1, at |-> a])
  /\ UNCHANGED ended

Merge(r, s) ==
  /\ More /\ r # s /\ ~(Has(s) \subseteq Has(r))
  /\ rep' = [rep EXCEPT ![r] = Merged(rep[r], rep[s])]
  /\ Rec([op |-> "merge", r |-> r, s |-> s])
  /\ UNCHANGED <<nedits, alive, ended>>

Finish == /\ Emit /\ ~ended /\ Len(hist) = Steps + 1
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ ended' = TRUE
          /\ UNCHANGED <<rep, nedits, hist, alive>>

Next == \/ \E r \in 1..Reps, pri \in Prios : \E gap \in 0..Len(TextOf(rep[r])) : Insert(r, pri, gap)
        \/ \E r \in 1..Reps : \E a \in 0..Len(TextOf(rep[r])) : Delete(r, a)
        \/ \E r, s \in 1..Reps : Merge(r, s)
        \/ Finish
Spec == Init /\ [][Next]_vars
View == <<rep, nedits, IF Emit THEN hist ELSE <<Len(hist)>>, ended>>

(* ---------------------------------------------------------------- properties *)
Converge == \A r, s \in 1..Reps : Has(r) = Has(s) => TextOf(rep[r]) = TextOf(rep[s])
Exact == \A r \in 1..Reps :
           LET t == TextOf(rep[r]) IN
           /\ Cardinality(Rng(t)) = Len(t)
           /\ Rng(t) = (UNION {alive[e].ins : e \in Has(r)}) \ (UNION {alive[e].del : e \in Has(r)})
Ordered == \A r, s \in 1..Reps :
             LET a == TextOf(rep[r])
                 b == TextOf(rep[s])
                 S == Rng(a) \cap Rng(b)
             IN SelectSeq(a, LAMBDA c : c \in S) = SelectSeq(b, LAMBDA c : c \in S)
=============================================================================

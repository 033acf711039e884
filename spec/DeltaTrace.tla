----------------------------- MODULE DeltaTrace -----------------------------
(* Decides whether what the real deltas and position sets computed is right.  *)
EXTENDS Delta, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Ranges(rs) == UNION {(rs[j][1] + 1)..rs[j][2] : j \in 1..Len(rs)}
RangesOk(rs, S) == /\ Ranges(rs) = S
                   /\ \A j \in 1..Len(rs) : rs[j][1] < rs[j][2]
                   /\ \A j \in 1..(Len(rs) - 1) : rs[j][2] <= rs[j + 1][1]

OnDelta(ev) ==
  LET n == ev.n els == ev.els r == Result(els, n) IN
  <<Wf(els, n),
    ev.apply = r,
    ev.ndl = Len(r) /\ ev.ilen = InsLen(els, n),
    SummaryOk(els, n, ev.sum[1], ev.sum[2], ev.sum[3]) /\ (Normal(els, n) => SummaryTight(els, n, ev.sum[1], ev.sum[2])),
    ev.inserts = Inserts(els),
    Normal(els, n) => DelsOk(els, n, ev.dels),
    FactorOk(els, n, ev.fins, ev.fdel) /\ ev.fapply = Result(ev.fins, n) /\ ev.finsub = InsertedMask(ev.fins, n),
    (ev.sins # <<-1>> => (OneInsert(els, n) /\ ev.sins = SelectSeq(r, LAMBDA x : x > n)))
      /\ (Normal(els, n) /\ OneInsert(els, n) => ev.sins # <<-1>>),
    Normal(els, n) => (ev.sdel = OneDelete(els, n)),
    (ev.ident => Nothing(els, n)) /\ (Normal(els, n) => ev.ident = Nothing(els, n)),
    \A k \in 0..n : ev.tr[k + 1] = <<Trans(els, n, k, FALSE), Trans(els, n, k, TRUE)>>,
    \A k \in 1..Len(ev.unt) : UntouchedOk(els, n, ev.unt[k][1], ev.unt[k][2])
  >>

OnSubset(ev) ==                     \* a, b over the same string; c over what b leaves
  LET a == ev.a b == ev.b c == ev.c n == Len(a) IN
  <<ev.union = SUnion(a, b),
    ev.sub = SSubtract(SUnion(a, b), b),
    ev.xor = SXor(a, b),
    ev.comp = SComplement(a),
    ev.expand = SExpand(c, b),
    ev.unioninto = SUnionInto(c, b),
    ev.shrink = SShrink(a, b),
    ev.len = n /\ ev.zero = Zeros(a) /\ ev.nonzero = NonZeros(a) /\ ev.lad = Zeros(a),
    ev.empty = (NonZeros(a) = 0),
    ev.delfrom = DeleteFrom(a, IdSeq(n)) /\ ev.delstr = DeleteFrom(a, IdSeq(n)),
    RangesOk(ev.rz, {j \in 1..n : a[j] = 0}) /\ RangesOk(ev.rn, {j \in 1..n : a[j] # 0}) /\ RangesOk(ev.ra, 1..n)
      /\ ev.rc = ev.rz,
    \A k \in 0..n : ev.mz[k + 1] = ZerosBefore(a, k + 1) /\ ev.mn[k + 1] = NonZerosBefore(a, k + 1) /\ ev.ma[k + 1] = k,
    ev.zip = [j \in 1..n |-> <<a[j], b[j]>>]
  >>

OnSynth(ev) == <<SynthOk(ev.from, ev.to, ev.els)>>

OnIxf(ev) ==                        \* an insertion delta moved through a position set
  LET w == IExpand(Gaps(ev.ins), ev.x, ev.after) IN
  <<ev.eapply = IApply(w, IdSeq(Len(ev.x))),
    ev.sapply = IApply(IShrink(Gaps(ev.full), ev.x), DeleteFrom(ev.x, IdSeq(Len(ev.x))))>>

Verdict(ev) == CASE ev.op = "delta" -> OnDelta(ev)
                 [] ev.op = "subset" -> OnSubset(ev)
                 [] ev.op = "synth" -> OnSynth(ev)
                 [] ev.op = "ixf" -> OnIxf(ev)
                 [] ev.op = "new" -> <<TRUE>>
                 [] OTHER -> <<FALSE>>

Init == i = 1
Step == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ LET v == Verdict(Trace[i]) IN
           (\A k \in 1..Len(v) : v[k]) \/ PrintT("MISMATCH " \o ToJson([line |-> i, want |-> v]))
Done == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1
Next == Step \/ Done
Spec == Init /\ [][Next]_i
=============================================================================

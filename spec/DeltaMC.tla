------------------------------ MODULE DeltaMC ------------------------------
(* Every small delta and every small pair of position sets: the laws of the  *)
(* algebra, and (as scripts) the cases replayed into the real code.           *)
EXTENDS Delta, Json
CONSTANTS N,          \* length of the base
          MaxIns,     \* insertions in a delta
          MaxCount,   \* counts in a position set
          Emit        \* print the cases

VARIABLES kind, els, at, nins, a, b, done
vars == <<kind, els, at, nins, a, b, done>>

Sets(n) == [1..n -> 0..MaxCount]

Init == /\ kind \in {"delta", "sets"}
        /\ els = <<>> /\ at = 0 /\ nins = 0
        /\ IF kind = "sets" THEN a \in UNION {Sets(n) : n \in 0..N} /\ b \in Sets(Len(a)) /\ done = FALSE
           ELSE a = <<>> /\ b = <<>> /\ done = FALSE

AddCopy == \E s \in at..(N - 1), e \in 1..N : s < e /\ els' = Append(els, C(s, e)) /\ at' = e /\ UNCHANGED nins
AddIns == nins < MaxIns /\ nins' = nins + 1 /\ UNCHANGED at
          /\ els' = Append(els, I(IF nins % 2 = 0 THEN <<100 + 2 * nins>> ELSE <<100 + 2 * nins, 101 + 2 * nins>>))
Stop == /\ done' = TRUE /\ UNCHANGED <<els, at, nins>>
        /\ (~Emit \/ PrintT("SCRIPT " \o ToJson(IF kind = "delta" THEN [k |-> "delta", n |-> N, els |-> els]
                                                ELSE [k |-> "sets", a |-> a, b |-> b])))
Next == /\ ~done
        /\ UNCHANGED <<kind, a, b>>
        /\ \/ kind = "delta" /\ (AddCopy \/ AddIns) /\ UNCHANGED done
           \/ Stop

Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
Ranges(rs) == UNION {(rs[j][1] + 1)..rs[j][2] : j \in 1..Len(rs)}
Clip(x) == [j \in 1..Len(x) |-> IF x[j] = 0 THEN 0 ELSE 1]
SetLaws == kind = "sets" =>
  LET n == Len(a) t == IdSeq(n) IN
  /\ SSubtract(SUnion(a, b), b) = a
  /\ SXor(SXor(a, b), b) = a
  /\ SComplement(SComplement(a)) = Clip(a)
  /\ SShrink(SExpand(SShrink(a, b), b), b) = SShrink(a, b)
  /\ LET s == SShrink(a, b) IN          \* deleting b and then what is left of a = deleting both
       /\ DeleteFrom(s, DeleteFrom(b, t)) = DeleteFrom(SUnion(a, b), t)
       /\ DeleteFrom(SUnionInto(s, b), t) = DeleteFrom(SUnion(a, b), t)
       /\ Clip(SUnion(SExpand(s, b), b)) = Clip(SUnionInto(s, b))
  /\ Zeros(a) + NonZeros(a) = n
  /\ Ranges(Runs(a, LAMBDA x : x = 0)) = {j \in 1..n : a[j] = 0}

(* the implementation's way of factoring and recombining, transcribed *)
RECURSIVE FactIns(_, _, _, _)
FactIns(es, j, b1, e1) ==
  IF j > Len(es) THEN (IF b1 < N THEN <<C(b1, N)>> ELSE <<>>)
  ELSE IF es[j].k = "c" THEN FactIns(es, j + 1, b1, es[j].e)
  ELSE (IF e1 > b1 THEN <<C(b1, e1)>> ELSE <<>>) \o <<es[j]>> \o FactIns(es, j + 1, e1, e1)
DeltaLaws == kind = "delta" =>
  /\ Wf(els, N)
  /\ LET ins == FactIns(els, 1, 0, 0)
         del == DelMask(els, N)
         u == Result(ins, N)
     IN /\ FactorOk(els, N, ins, del)
        /\ InsertedMask(ins, N) = IInserted(Gaps(ins), N)
        /\ IApply(Gaps(ins), IdSeq(N)) = u
        /\ DeleteFrom(InsertedMask(ins, N), u) = IdSeq(N)
  /\ \A x \in 0..N : \A y \in x..N :      \* positions keep their order
       Trans(els, N, x, FALSE) <= Trans(els, N, y, FALSE) /\ Trans(els, N, x, FALSE) <= Trans(els, N, x, TRUE)
  /\ LET p == Lcp(IdSeq(N), Result(els, N), 0)
         s == Lcp(Rev(IdSeq(N)), Rev(Result(els, N)), 0)
         q == IMax(p, N - s)
     IN SummaryOk(els, N, p, q, NewLen(els, N) - p - (N - q))
Laws == SetLaws /\ DeltaLaws
=============================================================================

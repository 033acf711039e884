------------------------------- MODULE Subset -------------------------------
(***************************************************************************)
(* The algebra of counted position sets (xi_rope::multiset::Subset): a     *)
(* subset of a string of n positions is the sequence of n counts.          *)
(***************************************************************************)
EXTENDS VUtil

SNew(n) == [i \in 1..n |-> 0]
SUnion(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SSubtract(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
RECURSIVE Xor(_, _)
Xor(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x
             ELSE 2 * Xor(x \div 2, y \div 2) + (IF x % 2 = y % 2 THEN 0 ELSE 1)
SXor(a, b) == [i \in 1..Len(a) |-> Xor(a[i], b[i])]
SComplement(a) == [i \in 1..Len(a) |-> IF a[i] = 0 THEN 1 ELSE 0]

ZeroIdx(a) == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : a[i] = 0)
NonZeroIdx(a) == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : a[i] # 0)
Zeros(a) == Cardinality({i \in 1..Len(a) : a[i] = 0})
NonZeros(a) == Len(a) - Zeros(a)
ZerosBefore(a, i) == Cardinality({j \in 1..(i - 1) : a[j] = 0})
NonZerosBefore(a, i) == Cardinality({j \in 1..(i - 1) : a[j] # 0})

(* a lives on the zero positions of x: put it back into the whole string *)
SExpand(a, x) == [i \in 1..Len(x) |-> IF x[i] = 0 THEN a[ZerosBefore(x, i) + 1] ELSE 0]
SUnionInto(a, x) == [i \in 1..Len(x) |-> IF x[i] = 0 THEN a[ZerosBefore(x, i) + 1] ELSE x[i]]
(* what is left of a when the positions of x are removed *)
SShrink(a, x) == LET z == ZeroIdx(x) IN [i \in 1..Len(z) |-> a[z[i]]]
DeleteFrom(a, txt) == LET z == ZeroIdx(a) IN [i \in 1..Len(z) |-> txt[z[i]]]

(* maximal runs of positions (from 0) whose count satisfies P, as <<beg, end>> *)
Runs(a, P(_)) ==
  LET n == Len(a)
      st == SelectSeq([i \in 1..n |-> i], LAMBDA i : P(a[i]) /\ (i = 1 \/ ~P(a[i - 1])))
      en == SelectSeq([i \in 1..n |-> i], LAMBDA i : P(a[i]) /\ (i = n \/ ~P(a[i + 1])))
  IN [k \in 1..Len(st) |-> <<st[k] - 1, en[k]>>]

(* insertions into a string of n positions: sequence of [gap, ids], gaps ascending *)
IExpand(ins, x, after) ==
  LET z == ZeroIdx(x)
      pos(g) == IF after THEN (IF g < Len(z) THEN z[g + 1] - 1 ELSE Len(x))
                         ELSE (IF g = 0 THEN 0 ELSE z[g])
  IN [i \in 1..Len(ins) |-> [gap |-> pos(ins[i].gap), ids |-> ins[i].ids]]
IShrink(ins, x) == [i \in 1..Len(ins) |-> [gap |-> ZerosBefore(x, ins[i].gap + 1), ids |-> ins[i].ids]]
IdsAt(ins, g) == Flat([i \in 1..Len(ins) |-> IF ins[i].gap = g THEN ins[i].ids ELSE <<>>])
IApply(ins, txt) == Flat([j \in 1..(Len(txt) + 1) |->
                            IdsAt(ins, j - 1) \o (IF j <= Len(txt) THEN <<txt[j]>> ELSE <<>>)])
IInserted(ins, n) == Flat([j \in 1..(n + 1) |->
                            [k \in 1..Len(IdsAt(ins, j - 1)) |-> 1] \o (IF j <= n THEN <<0>> ELSE <<>>)])
=============================================================================

------------------------------- MODULE VUtil -------------------------------
(* Helpers shared by the specifications. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b
Sub(s, a, b) == SubSeq(s, a + 1, b)              \* units a..b-1, counted from 0

RECURSIVE FlatUpTo(_, _)
FlatUpTo(ss, n) == IF n = 0 THEN <<>> ELSE FlatUpTo(ss, n - 1) \o ss[n]
Flat(ss) == FlatUpTo(ss, Len(ss))                \* concatenation of a sequence of sequences

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a

(* ascending sequence of a finite set of integers *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == SMin(S) IN <<m>> \o Sorted(S \ {m})

(* a description of an edit of a sequence: copies of ranges of the old one and insertions, in order *)
DApply(els, base) ==
  Flat([i \in 1..Len(els) |->
          IF els[i].k = "c" THEN Sub(base, els[i].b, els[i].e) ELSE els[i].ids])
DKept(els) == UNION {IF els[i].k = "c" THEN (els[i].b + 1)..els[i].e ELSE {} : i \in 1..Len(els)}
=============================================================================

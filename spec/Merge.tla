------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Replicas of a document that edit on their own and merge each other.     *)
(* Every edit has a number; a replica is the set of edits it has received. *)
(* What may be seen: the text at a replica is a function of that set        *)
(* (convergence); it holds exactly the characters inserted by those edits  *)
(* and deleted by none of them; and the order of two characters is fixed    *)
(* for good once some replica has shown it.                                *)
(***************************************************************************)
EXTENDS VUtil

(* world: [has, text, edits, seen, ord]                                     *)
(*   has[r]   edits received by replica r                                   *)
(*   text[r]  its text                                                      *)
(*   edits    number -> [ins, del] (ids)                                    *)
(*   seen     set of <<set of edits, text>>                                 *)

NewWorld(n) == [has |-> [r \in 1..n |-> {}], text |-> [r \in 1..n |-> <<>>],
                edits |-> <<>>, seen |-> {<<{}, <<>>>>}]

Alive(w, S) == (UNION {w.edits[e].ins : e \in S}) \ (UNION {w.edits[e].del : e \in S})

Restrict(txt, S) == SelectSeq(txt, LAMBDA c : c \in S)

NoDup(txt) == Cardinality(Rng(txt)) = Len(txt)

(* the two texts agree on the order of what they share *)
SameOrder(a, b) == LET S == Rng(a) \cap Rng(b) IN Restrict(a, S) = Restrict(b, S)

InsOf(els) == UNION {IF els[i].k = "i" THEN Rng(els[i].ids) ELSE {} : i \in 1..Len(els)}

(* an edit at r, written against a text this replica had; txt is what it shows afterwards *)
EditOk(w, r, e, base, els, athead, txt) ==
  LET want == DApply(els, base)
      del == {base[i] : i \in (1..Len(base)) \ DKept(els)}
      ed == [ins |-> InsOf(els), del |-> del]
      w2 == [w EXCEPT !.edits = Append(@, ed), !.has[r] = @ \cup {e}, !.text[r] = txt]
      ok == /\ e = Len(w.edits) + 1
            /\ NoDup(txt)
            /\ Rng(txt) = Alive(w2, w2.has[r])
            /\ SameOrder(txt, want)
            /\ SameOrder(txt, w.text[r])
            /\ athead => txt = want
  IN [ok |-> ok, w |-> [w2 EXCEPT !.seen = @ \cup {<<w2.has[r], txt>>}], want |-> want]

MergeOk(w, r, s, txt) ==
  LET S == w.has[r] \cup w.has[s]
      w2 == [w EXCEPT !.has[r] = S, !.text[r] = txt]
      ok == /\ NoDup(txt)
            /\ Rng(txt) = Alive(w, S)
            /\ SameOrder(txt, w.text[r])
            /\ SameOrder(txt, w.text[s])
            /\ \A p \in w.seen : p[1] = S => p[2] = txt
  IN [ok |-> ok, w |-> [w2 EXCEPT !.seen = @ \cup {<<S, txt>>}],
      want |-> {p[2] : p \in {q \in w.seen : q[1] = S}}]
=============================================================================

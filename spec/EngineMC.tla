------------------------------ MODULE EngineMC ------------------------------
(***************************************************************************)
(* Every history of a few edits (at any promised revision, any place),     *)
(* undo sets and collections: the specification's own properties hold, and *)
(* the algorithm as implemented shows exactly the same texts.              *)
(***************************************************************************)
EXTENDS Engine, Json

CONSTANTS Start,      \* initial characters
          Steps,      \* length of histories
          Groups, Prios, MaxLen, WithGc, WithImpl, Emit,
          Spread,     \* longest deleted range
          Back        \* how many revisions back an edit may be based

VARIABLES doc, impl, hist, mark
vars == <<doc, impl, hist, mark>>

I == INSTANCE EngineImpl

ids0 == [i \in 1..Start |-> i]
NewEls == <<[k |-> "i", b |-> 0, e |-> 0, ids |-> ids0]>>

Init == /\ doc = NewDoc(ids0)
        /\ impl = IF Start = 0 THEN I!IEmpty ELSE I!IEdit(I!IEmpty, 1, 0, 0, NewEls)
        /\ hist = <<[op |-> "new", txt |-> ids0]>>
        /\ mark = [kind |-> "none"]

Fresh == LET S == {doc.U[j].id : j \in 1..Len(doc.U)} IN IF S = {} THEN 1 ELSE SMax(S) + 1

(* a deletion of a range and/or one new character at its beginning *)
ElsFor(a, b, ins, n) ==
  (IF a > 0 THEN <<[k |-> "c", b |-> 0, e |-> a, ids |-> <<>>]>> ELSE <<>>)
  \o (IF ins THEN <<[k |-> "i", b |-> 0, e |-> 0, ids |-> <<Fresh>>]>> ELSE <<>>)
  \o (IF b < n THEN <<[k |-> "c", b |-> b, e |-> n, ids |-> <<>>]>> ELSE <<>>)

More == Len(hist) <= Steps
Rec(x) == hist' = IF Emit THEN Append(hist, x) ELSE Append(hist, x.op)

DoEdit(base, prio, grp, a, b, ins) ==
  LET n == Len(Text(doc, base))
      els == ElsFor(a, b, ins, n) IN
  /\ More /\ grp \notin doc.frozen
  /\ b <= n /\ (ins \/ a < b)
  /\ Len(doc.U) < MaxLen \/ ~ins
  /\ doc' = Edited(doc, base, prio, grp, els)
  /\ impl' = IF WithImpl THEN I!IEdit(impl, base, prio, grp, els) ELSE impl
  /\ Rec([op |-> "edit", base |-> base, prio |-> prio, grp |-> grp, els |-> els])
  /\ mark' = [kind |-> "edit", old |-> doc, base |-> base, grp |-> grp, els |-> els]

DoUndo(gs) == /\ More
              /\ gs \cap doc.frozen = {}
              /\ doc' = Undone(doc, gs)
              /\ impl' = IF WithImpl THEN I!IUndo(impl, gs) ELSE impl
              /\ Rec([op |-> "undo", grps |-> Sorted(gs)])
              /\ mark' = [kind |-> "undo", old |-> doc]

DoGc(gs) == /\ WithGc /\ More
            /\ gs # {} /\ gs \cap doc.frozen = {}
            /\ doc' = Collected(doc, gs)
            /\ impl' = IF WithImpl THEN I!IGc(impl, gs) ELSE impl
            /\ Rec([op |-> "gc", grps |-> Sorted(gs)])
            /\ mark' = [kind |-> "gc", old |-> doc]

(* a complete history is handed to the replay *)
Finish == /\ Emit /\ Len(hist) = Steps + 1 /\ mark.kind # "done"
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ mark' = [kind |-> "done"]
          /\ UNCHANGED <<doc, impl, hist>>

Next == \/ Finish
        \/ \E base \in IMax(doc.floor, NRev(doc) - Back)..NRev(doc), prio \in Prios, grp \in Groups \ {0} :
             \E a \in 0..Len(Text(doc, base)), ins \in BOOLEAN : \E l \in 0..Spread :
               DoEdit(base, prio, grp, a, a + l, ins)
        \/ \E gs \in SUBSET Groups : DoUndo(gs)
        \/ \E gs \in SUBSET Groups : DoGc(gs)

Spec == Init /\ [][Next]_vars
View == <<doc, impl, IF Emit THEN hist ELSE <<Len(hist)>>, mark>>

(* ------------------------------------------------------------------ properties *)
(* the algorithm shows what the specification says, now and for every promised revision *)
ImplSame ==
  WithImpl =>
    /\ I!IHead(impl) = HeadText(doc)
    /\ \A k \in doc.floor..NRev(doc) :
         LET ix == I!IxOf(impl, k) IN ix # 0 /\ I!ITextAt(impl, ix) = Text(doc, k)
    /\ \A k \in doc.gone : I!IxOf(impl, k) = 0

(* an edit of the current text does what it says *)
EditAtHead ==
  (mark.kind = "edit" /\ mark.base = NRev(mark.old) /\ mark.grp \notin mark.old.und)
    => HeadText(doc) = DApply(mark.els, HeadText(mark.old))

(* an edit of an older text: deletes what it named, inserts its own, keeps all else in order *)
Rebased ==
  mark.kind = "edit" =>
    LET old == HeadText(mark.old)
        btxt == Text(mark.old, mark.base)
        named == {btxt[i] : i \in (1..Len(btxt)) \ DKept(mark.els)}
        own == UNION {IF mark.els[i].k = "i" THEN Rng(mark.els[i].ids) ELSE {} : i \in 1..Len(mark.els)}
        live == mark.grp \notin mark.old.und
        now == HeadText(doc)
        want == DApply(mark.els, btxt)
    IN /\ SelectSeq(now, LAMBDA c : c \notin own)
            = SelectSeq(old, LAMBDA c : ~live \/ c \notin named)
       /\ live => own \subseteq Rng(now)
       /\ ~live => own \cap Rng(now) = {}
       /\ LET S == Rng(now) \cap Rng(want) IN
          SelectSeq(now, LAMBDA c : c \in S) = SelectSeq(want, LAMBDA c : c \in S)

(* undoing or discarding never changes other texts; collecting never changes the text *)
OthersStay ==
  mark.kind \in {"undo", "gc", "edit"} =>
    \A k \in 1..NRev(mark.old) : Text(doc, k) = Text(mark.old, k)
GcSame == mark.kind = "gc" => HeadText(doc) = HeadText(mark.old)

(* the same undone set with the same edits is the same text *)
RestoreSame ==
  \A a, b \in 1..NRev(doc) :
    (a < b /\ UndAt(doc, a) = UndAt(doc, b) /\ \A k \in (a + 1)..b : doc.revs[k].kind = "undo")
      => Text(doc, a) = Text(doc, b)
=============================================================================

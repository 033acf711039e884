--------------------------------- MODULE Plug ---------------------------------
(* The core among its plugins: what plugins are told of the buffers, what their  *)
(* edits do however late they come, and what their styles and annotations are    *)
(* attached to.                                                                  *)
(*                                                                               *)
(* Every character is <<code point, serial>>: the serial is its identity.  A     *)
(* buffer is the document with its history (Engine), the stack of undo groups,   *)
(* and how many updates each plugin has not acknowledged: while there are any,   *)
(* no history is discarded, so every revision such a plugin may still refer to   *)
(* can be resolved.                                                              *)
(*                                                                               *)
(* What a plugin reported is a function from characters to sets of values: the   *)
(* values the character may show (0: nothing).  A set has more than one element  *)
(* only for characters the report could not speak of: they came later, and lie   *)
(* inside of a range it named.                                                   *)
EXTENDS Engine

NoTok == 0
MaxUndos == 20
UserPrio == 65536

Cps(t) == [k \in 1..Len(t) |-> t[k][1]]
Fresh(x, n) == [k \in 1..Len(x) |-> <<x[k], n + k>>]
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Size(_)
Size(x) == IF x = <<>> THEN 0 ELSE Bytes(x[1]) + Size(Tail(x))
Lines(x) == 1 + Cardinality({k \in 1..Len(x) : x[k] = 10})

-----------------------------------------------------------------------------
(* a buffer *)
Buffer(x, np) ==
  [d |-> NewDoc(Fresh(x, 0)), next |-> Len(x), live |-> <<0>>, cur |-> 1, gid |-> 1, gcq |-> {}, und |-> {},
   last |-> "other", caret |-> -1, pend |-> [p \in 1..np |-> 0], sty |-> <<>>, ann |-> <<>>]

Now(b) == HeadText(b.d)
HeadCps(b) == Cps(Now(b))
HeadSet(b) == Rng(Now(b))

NoneInFlight(b) == \A p \in DOMAIN b.pend : b.pend[p] = 0
Gc(b) == IF NoneInFlight(b) /\ b.gcq # {}
         THEN [b EXCEPT !.d = Collected(b.d, b.gcq), !.und = @ \ b.gcq, !.gcq = {}] ELSE b

(* the undo group of an edit of a kind *)
NewGroup(b) ==
  LET l == Append(SubSeq(b.live, 1, b.cur), b.gid)
      q == b.gcq \cup {b.live[k] : k \in (b.cur + 1)..Len(b.live)} IN
  IF Len(l) <= MaxUndos THEN [b EXCEPT !.live = l, !.cur = @ + 1, !.gid = @ + 1, !.gcq = q]
  ELSE [b EXCEPT !.live = Tail(l), !.gid = @ + 1, !.gcq = q \cup {l[1]}]
Group(b, kind) == IF kind # "other" /\ kind = b.last THEN b ELSE NewGroup(b)
Top(b) == b.live[Len(b.live)]

(* reports follow a change of the text *)
Kept(m, was, now) == [c \in (DOMAIN m \cap was \cap now) |-> m[c]]
CommonPrefix(s, t) == SMax({0} \cup {k \in 1..IMin(Len(s), Len(t)) : \A j \in 1..k : s[j] = t[j]})
(* annotations that reach into the changed part, or lie behind it, may be dropped *)
Loosen(m, rest) ==
  LET hit == UNION {m[c] : c \in (DOMAIN m \cap rest)} \ {0} IN
  [c \in DOMAIN m |-> IF m[c] \cap hit # {} THEN m[c] \cup {0} ELSE m[c]]
(* ... and if they are not, what was put into them may belong to them *)
Into(m, t, now) ==          \* m: after Kept; t: text before the report was loosened
  LET at(k) == IF now[k] \in DOMAIN m THEN m[now[k]] ELSE {0}
      bef(k) == {j \in 1..(k - 1) : now[j] \in t}
      aft(k) == {j \in (k + 1)..Len(now) : now[j] \in t}
      new == {k \in 1..Len(now) : now[k] \notin t /\ bef(k) # {} /\ aft(k) # {}
                                  /\ (at(SMax(bef(k))) \cap at(SMin(aft(k)))) \ {0} # {}} IN
  [c \in DOMAIN m \cup {now[k] : k \in new} |->
     IF c \in DOMAIN m THEN m[c] ELSE LET k == CHOOSE k \in new : now[k] = c IN {0} \cup (at(SMax(bef(k))) \cap at(SMin(aft(k))))]

Follow(b, d2) ==            \* the document became d2
  LET old == HeadText(b.d) new == HeadText(d2)
      o == Rng(old) n == Rng(new)
      rest == Rng(SubSeq(old, CommonPrefix(old, new) + 1, Len(old)))
  IN [b EXCEPT !.d = d2,
        !.sty = [k \in DOMAIN @ |-> [@[k] EXCEPT !.m = Kept(@, o, n)]],
        !.ann = [k \in DOMAIN @ |-> [@[k] EXCEPT !.m = Into(Kept(Loosen(@, rest), o, n), o, new)]]]

(* a revision was made: every running plugin is told *)
Told(b, up, kind) == Gc([b EXCEPT !.pend = [p \in DOMAIN @ |-> IF up[p] THEN @[p] + 1 ELSE @[p]], !.last = kind])

EditBuf(b, up, kind, base, prio, grp, els) ==     \* els without identities yet
  LET n == b.next
      len(k) == IF els[k].k = "i" THEN Len(els[k].ids) ELSE 0
      RECURSIVE Before(_)
      Before(k) == IF k = 0 THEN 0 ELSE Before(k - 1) + len(k)
      named == [k \in 1..Len(els) |-> IF els[k].k = "i" THEN [els[k] EXCEPT !.ids = Fresh(els[k].ids, n + Before(k - 1))] ELSE els[k]]
      b1 == Follow(b, Edited(b.d, base, prio, grp, named))
  IN Told([b1 EXCEPT !.next = n + Before(Len(els)), !.caret = -1], up, kind)

(* the front-end's commands; each returns <<buffer, made a revision>> *)
Ins(b, up, at, x) ==
  LET k == IF at >= 0 THEN at ELSE b.caret
      b1 == Group(IF at >= 0 THEN [b EXCEPT !.last = "other"] ELSE b, "insert")
      n == Len(Now(b))
      els == (IF k > 0 THEN <<[k |-> "c", b |-> 0, e |-> k, ids |-> <<>>]>> ELSE <<>>)
             \o <<[k |-> "i", b |-> 0, e |-> 0, ids |-> x]>>
             \o (IF k < n THEN <<[k |-> "c", b |-> k, e |-> n, ids |-> <<>>]>> ELSE <<>>)
      b2 == EditBuf(b1, up, "insert", NRev(b1.d), UserPrio, Top(b1), els)
  IN <<[b2 EXCEPT !.caret = k + Len(x)], TRUE>>

Bs(b, up, at) ==
  LET k == IF at >= 0 THEN at ELSE b.caret
      b0 == IF at >= 0 THEN [b EXCEPT !.last = "other"] ELSE b
      b1 == Group(b0, "delete")
      n == Len(Now(b))
      els == (IF k > 1 THEN <<[k |-> "c", b |-> 0, e |-> k - 1, ids |-> <<>>]>> ELSE <<>>)
             \o (IF k < n THEN <<[k |-> "c", b |-> k, e |-> n, ids |-> <<>>]>> ELSE <<>>)
      b2 == EditBuf(b1, up, "delete", NRev(b1.d), UserPrio, Top(b1), els)
  IN IF k = 0 THEN <<[b0 EXCEPT !.caret = 0], FALSE>> ELSE <<[b2 EXCEPT !.caret = k - 1], TRUE>>

Undo(b, up) ==
  IF b.cur <= 1 THEN <<[b EXCEPT !.caret = -1], FALSE>>
  ELSE LET u == b.und \cup {b.live[b.cur]} b1 == Follow(b, Undone(b.d, u)) IN
       <<Told([b1 EXCEPT !.cur = @ - 1, !.und = u, !.caret = -1], up, "undo"), TRUE>>
Redo(b, up) ==
  IF b.cur >= Len(b.live) THEN <<[b EXCEPT !.caret = -1], FALSE>>
  ELSE LET u == b.und \ {b.live[b.cur + 1]} b1 == Follow(b, Undone(b.d, u)) IN
       <<Told([b1 EXCEPT !.cur = @ + 1, !.und = u, !.caret = -1], up, "redo"), TRUE>>

(* an edit a plugin sends: refused if it does not name a revision or does not fit it *)
PluginEdit(b, up, ev) ==
  IF ev.base = NoTok \/ ev.bad THEN <<[b EXCEPT !.caret = -1], FALSE>>
  ELSE LET b1 == IF ev.grp < 0 THEN Group(b, "other") ELSE b
           g == IF ev.grp < 0 THEN Top(b1) ELSE ev.grp IN
       <<EditBuf(b1, up, "other", ev.base, ev.prio, g, ev.els), TRUE>>

Acked(b, p, n) == Gc([b EXCEPT !.pend[p] = @ - n])

-----------------------------------------------------------------------------
(* reports *)
(* where character number i of the union string falls in the text of revision k: the gaps   *)
(* of that text that are the same place for it, now that characters around it are gone      *)
Cover(b, k, s, n, sp) ==       \* <<must, may, edge, in>>: functions over characters now visible
  LET U == b.d.U
      N == Len(U)
      now == NRev(b.d)
      isK == [j \in 1..N |-> Visible(b.d, U[j], k)]
      isH == [j \in 1..N |-> Visible(b.d, U[j], now)]
      gap == [j \in 1..N |-> Cardinality({x \in 1..(j - 1) : isK[x]})]       \* characters of k before it
      both == {j \in 1..N : isK[j] /\ isH[j]}
      lo(j) == LET P == {x \in both : x < j} IN IF P = {} THEN 0 ELSE gap[SMax(P)] + 1
      hi(j) == LET P == {x \in both : x > j} IN IF P = {} THEN Cardinality({x \in 1..N : isK[x]}) ELSE gap[SMin(P)]
      val(g) == LET H == {q \in 1..Len(sp) : s + sp[q].s <= g /\ g < s + sp[q].e} IN IF H = {} THEN 0 ELSE sp[CHOOSE q \in H : TRUE].d
      inside(j) == {sp[q].d : q \in {q \in 1..Len(sp) : \E g \in lo(j)..hi(j) : s + sp[q].s < g /\ g < s + sp[q].e}}
      H == {j \in 1..N : isH[j]}
      told == {j \in both : s <= gap[j] /\ gap[j] < s + n}
      late == {j \in H \ both : \E g \in lo(j)..hi(j) : s <= g /\ g <= s + n}
  IN [told |-> [c \in {U[j].id : j \in told} |-> val(gap[CHOOSE j \in told : U[j].id = c])],
      late |-> [c \in {U[j].id : j \in late} |-> inside(CHOOSE j \in late : U[j].id = c)]]

Reported(b, m, ev, vals(_)) ==
  LET cv == Cover(b, ev.base, ev.s, ev.n, ev.sp)
      old(c) == IF c \in DOMAIN m THEN m[c] ELSE {0} IN
  [c \in DOMAIN m \cup DOMAIN cv.told \cup DOMAIN cv.late |->
     IF c \in DOMAIN cv.told THEN {vals(cv.told[c])}
     ELSE IF c \in DOMAIN cv.late THEN old(c) \cup {0} \cup {vals(x) : x \in cv.late[c]}
     ELSE m[c]]

(* layers: [pid, scopes, m], in the order of the plugins' numbers *)
LayerOf(ls, pid) == {k \in DOMAIN ls : ls[k].pid = pid}
WithLayer(ls, pid) ==
  IF LayerOf(ls, pid) # {} THEN ls
  ELSE LET lowS == SelectSeq(ls, LAMBDA l : l.pid < pid)
           highS == SelectSeq(ls, LAMBDA l : l.pid > pid) IN
       lowS \o <<[pid |-> pid, scopes |-> <<>>, m |-> <<>>]>> \o highS
Idx(ls, pid) == CHOOSE k \in DOMAIN ls : ls[k].pid = pid
AnnIdx(as, ty) == {k \in DOMAIN as : as[k].ty = ty}

Scopes(b, pid, st) ==
  LET ls == WithLayer(b.sty, pid) IN [b EXCEPT !.sty = [ls EXCEPT ![Idx(ls, pid)].scopes = @ \o st]]
(* scope numbers of reports count from 0; the value of a style is the number plus one *)
Spans(b, pid, ev) ==
  IF ev.bad THEN b
  ELSE LET ls == WithLayer(b.sty, pid)
           k == Idx(ls, pid)
           shifted == [ev EXCEPT !.sp = [q \in 1..Len(ev.sp) |-> [ev.sp[q] EXCEPT !.d = @ + 1]]] IN
       [b EXCEPT !.sty = [ls EXCEPT ![k].m = Reported(b, @, shifted, LAMBDA x : x)]]
Annots(b, ev) ==
  IF ev.bad THEN b
  ELSE LET as == IF AnnIdx(b.ann, ev.ty) # {} THEN b.ann ELSE Append(b.ann, [ty |-> ev.ty, m |-> <<>>])
           k == CHOOSE k \in DOMAIN as : as[k].ty = ev.ty IN
       [b EXCEPT !.ann = [as EXCEPT ![k].m = Reported(b, @, ev, LAMBDA x : x)]]
Gone(b, p, pid, ty) ==
  LET b1 == [b EXCEPT !.sty = SelectSeq(@, LAMBDA l : l.pid # pid),
                      !.ann = [k \in DOMAIN @ |-> IF @[k].ty = ty THEN [@[k] EXCEPT !.m = [c \in DOMAIN @ |-> @[c] \cup {0}]] ELSE @[k]]]
  IN Gc([b1 EXCEPT !.pend[p] = 0])

-----------------------------------------------------------------------------
(* styles: [fg, bg, weight, underline, italic], -1: nothing said *)
Color(th, k) == th * 65536 + k * 256
Atom(th, a) == CASE a = "a" -> <<Color(th, 1), -1, -1>>
                 [] a = "b" -> <<Color(th, 2), -1, 1>>
                 [] a = "c" -> <<-1, -1, 4>>
                 [] a = "d" -> <<-1, Color(th, 3), 2>>
                 [] OTHER   -> <<-1, -1, -1>>
Or(x, y) == IF x # -1 THEN x ELSE y
RECURSIVE StackStyle(_, _)
StackStyle(th, st) ==
  IF st = <<>> THEN <<-1, -1, -1>>
  ELSE LET u == StackStyle(th, SubSeq(st, 1, Len(st) - 1)) a == Atom(th, st[Len(st)]) IN
       [k \in 1..3 |-> Or(a[k], u[k])]
Style(th, st) == LET a == StackStyle(th, st) IN
  <<a[1], a[2], IF a[3] = 1 THEN 700 ELSE -1, IF a[3] = 2 THEN 1 ELSE -1, IF a[3] = 4 THEN 1 ELSE -1>>
Over(lower, upper) == [k \in 1..5 |-> Or(upper[k], lower[k])]

RECURSIVE Shows(_, _, _, _)
Shows(b, th, c, k) ==          \* what layers 1..k may show of character c; <<>>: nothing
  IF k = 0 THEN {<<>>}
  ELSE LET below == Shows(b, th, c, k - 1)
           l == b.sty[k]
           vs == IF c \in DOMAIN l.m THEN l.m[c] ELSE {0} IN
       UNION {IF v = 0 THEN below
              ELSE {IF x = <<>> THEN Style(th, l.scopes[v]) ELSE Over(x, Style(th, l.scopes[v])) : x \in below} : v \in vs}
Final(th, x) == IF x = <<>> THEN x ELSE [x EXCEPT ![1] = Or(x[1], Color(th, 9))]

RECURSIVE Spread(_, _)
Spread(runs, k) == IF k > Len(runs) THEN <<>> ELSE [j \in 1..runs[k].n |-> runs[k].s] \o Spread(runs, k + 1)
StylesWrong(b, th, sh) ==
  LET t == Now(b) seen == Spread(sh.runs, 1) IN
  IF Len(seen) # Len(t) THEN {0}
  ELSE {k \in 1..Len(t) : seen[k] \notin {Final(th, x) : x \in Shows(b, th, t[k], Len(b.sty))}}

AnnWrong(b, sh) ==             \* characters (by position) whose annotations are not what they may be
  LET t == Now(b)
      vals(ty, k) == UNION {{sh.ann[j].r[q][3] : q \in {q \in 1..Len(sh.ann[j].r) : sh.ann[j].r[q][1] < k /\ k <= sh.ann[j].r[q][2]}}
                             : j \in {j \in 1..Len(sh.ann) : sh.ann[j].ty = ty}}
      may(a, k) == IF t[k] \in DOMAIN a.m THEN a.m[t[k]] ELSE {0}
      bad(a) == {k \in 1..Len(t) : ~ (IF vals(a.ty, k) = {} THEN 0 \in may(a, k)
                                      ELSE Cardinality(vals(a.ty, k)) = 1 /\ vals(a.ty, k) \subseteq may(a, k))}
      outside == {j \in 1..Len(sh.ann) : \E q \in 1..Len(sh.ann[j].r) :
                     sh.ann[j].r[q][1] < 0 \/ sh.ann[j].r[q][2] < sh.ann[j].r[q][1] \/ sh.ann[j].r[q][2] > Len(t)}
      unknown == {j \in 1..Len(sh.ann) : sh.ann[j].ty \notin {b.ann[k].ty : k \in DOMAIN b.ann} /\ sh.ann[j].r # <<>>}
  IN UNION {bad(b.ann[k]) : k \in DOMAIN b.ann} \cup (IF outside \cup unknown # {} THEN {0} ELSE {})

-----------------------------------------------------------------------------
(* what a plugin reads: the text of a revision from a place on, no more than it asked for *)
RECURSIVE Reach(_, _, _)
Reach(x, k, n) ==              \* last boundary not after n bytes, from character k on
  IF k > Len(x) \/ Bytes(x[k]) > n THEN k - 1 ELSE Reach(x, k + 1, n - Bytes(x[k]))
LineStart(x, l) ==             \* characters before line l (from 0)
  IF l = 0 THEN 0
  ELSE LET P == {k \in 1..Len(x) : x[k] = 10} IN
       IF l > Cardinality(P) THEN Len(x) ELSE CHOOSE k \in P : Cardinality({j \in P : j <= k}) = l
Chunk(x, ev) ==                \* <<>>: there is no such place
  IF ev.line THEN IF ev.s > Lines(x) THEN <<-1>> ELSE <<LineStart(x, ev.s)>>
  ELSE IF ev.s > Size(x) THEN <<-1>> ELSE <<Reach(x, 1, ev.s)>>
DataOk(x, ev) ==
  LET p == Chunk(x, ev)[1] IN
  IF p = -1 THEN ev.res = <<>>
  ELSE /\ Len(ev.res) = 1
       /\ LET r == ev.res[1]
              e == Reach(x, p + 1, IMin(ev.max, 1048576))
              before == SubSeq(x, 1, p)
              l == Lines(before) - 1 IN
          /\ r.off = Size(before)
          /\ r.chunk = SubSeq(x, p + 1, e)
          /\ r.first = l
          /\ r.flo = Size(SubSeq(x, LineStart(x, l) + 1, p))
=============================================================================

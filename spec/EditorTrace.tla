----------------------------- MODULE EditorTrace -----------------------------
(* Decides recorded sessions: every command the front-end sent, the text after   *)
(* it, and everything the core told the front-end.                               *)
EXTENDS Client, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, cache, skip
vars == <<i, s, cache, skip>>
Ev == Trace[i]

Ann(T, ls, rs) == [k \in 1..Len(rs) |-> LC(T, ls, RMin(rs[k])) \o LC(T, ls, RMax(rs[k]))]
InView(q, ls, rs) == InRange(rs, OffOfLine(q.T, ls, q.first), OffOfLine(q.T, ls, q.first + q.height + 2))

EditOps1 == {"insert", "paste", "newline", "tab", "bs", "del", "indent", "outdent", "upper", "lower", "capitalize", "transpose",
             "dup", "number", "yank", "cut", "copy"}
TextTags(c) == CASE c \in {"undo", "redo"} -> {"U01"}
                 [] c = "play" -> {"T01"}
                 [] c \in {"replace_next", "replace_all"} -> {"F01", "C01"}
                 [] OTHER -> {"C01"}
SelTags(c) == CASE c \in {"undo", "redo"} -> {"C01", "C02", "U01"}
                [] c = "play" -> {"T01"}
                [] c \in EditOps1 -> {"C01", "C02"}
                [] c \in {"find_next", "find_all", "replace_next", "replace_all"} -> {"F01", "C02"}
                [] OTHER -> {"C02"}

(* just after a recording was played: what an undo takes back then is about the playing *)
NearPlay(k) == \E j \in 1..5 : j < k /\ (\A m \in 1..j : Trace[k - m].op = "cmd") /\ Trace[k - j].cmd.c = "play"

(* apply the updates in order; the cache and what was wrong *)
RECURSIVE Updates(_, _, _, _, _, _, _)
Updates(ca, ups, k, q, ls, occs, all) ==      \* all: not only after the last one
  IF k > Len(ups) THEN <<ca, {}>>
  ELSE LET r == ApplyUpdate(ca, ups[k].ops) IN
       IF ~r[2] THEN <<r[1], {<<k, "ops">>}>>
       ELSE LET w == IF all \/ k = Len(ups) THEN CacheWrong(r[1], q, ls, occs, k = Len(ups)) ELSE {} IN
            IF w # {} THEN <<r[1], w>> ELSE Updates(r[1], ups, k + 1, q, ls, occs, all)

StatusOk(q, ls, occs, f) ==      \* f: [id, chars, cs, isre, ww, n, lines] of every query
  /\ Len(f) = Len(q.find)
  /\ \A k \in 1..Len(f) : /\ f[k].id = q.find[k].id /\ f[k].chars = q.find[k].pat /\ f[k].cs = q.find[k].cs
                          /\ f[k].isre = q.find[k].isre /\ f[k].ww = q.find[k].ww /\ f[k].n = Len(occs[k])
                          /\ f[k].lines = [j \in 1..Len(occs[k]) |-> LineOf(ls, occs[k][j].s) + 1]

Verdict(q, ca, ev, c) ==         \* <<cache, tags, details>>
  LET ls == Vis(q)
      occs == IF q.find = <<>> THEN <<>> ELSE Occs(q)
      n == Len(ev.upd)
      u == IF q.T # ev.text THEN <<ca, {}>> ELSE Updates(ca, ev.upd, 1, q, ls, occs, c \notin {"play", "resize", "wrap"})
      badtext == q.T # ev.text
      badsel == ~badtext /\ n > 0 /\ ev.upd[n].sel # Ann(q.T, ls, InView(q, ls, q.sel))
      badform == ~badtext /\ ~WellFormed(q.sel, Len(q.T))
      badprist == {k \in (IF c = "play" THEN IMax(n, 1) ELSE 1)..n : ~PristineOk(q, ev.upd[k].pristine)} # {}
      late == "late" \in DOMAIN ev /\ ev.late           \* a search did not complete
      badfind == late \/ (~badtext /\ n > 0 /\ ev.upd[n].find # [k \in 1..Len(occs) |-> Ann(q.T, ls, InView(q, ls, occs[k]))])
      badstat == ~badtext /\ \E k \in (IF c = "play" THEN IMax(Len(ev.fstat), 1) ELSE 1)..Len(ev.fstat) : ~StatusOk(q, ls, occs, ev.fstat[k])
      told == IF c = "play" /\ ev.scroll # <<>> THEN <<Last(ev.scroll)>> ELSE ev.scroll
      badscroll == ~badtext /\ told # (IF q.st = -1 THEN <<>> ELSE <<LC(q.T, ls, q.st)>>)
      badresp == ev.resp # (IF c \in {"cut", "copy"} THEN <<IF HasRegion(s.sel) THEN <<Extract(s.T, s.sel)>> ELSE <<>>>> ELSE <<>>)
      matchOnly == u[2] # {} /\ \A w \in u[2] : w[2] = "matches"
  IN <<u[1],
       (IF badtext THEN TextTags(c) ELSE {}) \cup (IF badsel \/ badform THEN SelTags(c) ELSE {})
       \cup (IF badprist THEN {"U02"} ELSE {}) \cup (IF badfind \/ badstat THEN {"F01"} ELSE {})
       \cup (IF u[2] # {} THEN IF matchOnly THEN {"V01", "F01"} ELSE {"V01"} ELSE {})
       \cup (IF badscroll THEN {"C02"} ELSE {}) \cup (IF badresp THEN {"C01"} ELSE {}),
       [text |-> IF badtext THEN <<q.T>> ELSE <<>>,
        sel |-> IF badsel \/ badform THEN <<Ann(q.T, ls, InView(q, ls, q.sel))>> ELSE <<>>,
        pristine |-> badprist, client |-> u[2], scroll |-> badscroll, resp |-> badresp,
        late |-> late, find |-> IF badfind \/ badstat THEN <<[k \in 1..Len(occs) |-> Ann(q.T, ls, occs[k])]>> ELSE <<>>]>>

RECURSIVE TagSeq(_)
TagSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o TagSeq(S \ {x})
Report(tags, d) == PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> TagSeq(tags), want |-> d]))
Init == /\ i = 1 /\ s = Start(<<>>, [tab |-> 4]) /\ cache = <<>> /\ skip = TRUE
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ CASE Ev.op = "new" ->
            LET q == Start(Ev.text, Ev.cfg) IN
            LET v == Verdict(q, <<>>, Ev, "new") IN
            /\ s' = [q EXCEPT !.st = -1] /\ cache' = v[1] /\ skip' = (v[2] # {})
            /\ IF v[2] = {} THEN TRUE ELSE Report(v[2] \cup (IF q.wrap # NoWrap THEN {"V02"} ELSE {}), v[3])
       [] skip -> UNCHANGED <<s, cache, skip>>
       [] Ev.op = "cmd" ->
            LET q == Command(s, Ev.cmd) IN
            LET v == Verdict(q, cache, Ev, Ev.cmd.c) IN
            LET tags == v[2] \cup (IF v[2] # {} /\ q.wrap # NoWrap THEN {"V02"} ELSE {})
                             \cup (IF "U01" \in v[2] /\ NearPlay(i) THEN {"T01"} ELSE {}) IN
            /\ s' = q /\ cache' = v[1] /\ skip' = (v[2] # {})
            /\ IF v[2] = {} THEN TRUE ELSE Report(tags, v[3])
       [] Ev.op = "end" -> UNCHANGED <<s, cache, skip>>
       [] OTHER ->      \* panic, hang, crash, ended
            /\ UNCHANGED <<s, cache>> /\ skip' = TRUE
            /\ Report({"L01", "C01", "C02", "U01", "U02", "V01", "V02", "F01", "T01"}, [died |-> Ev.op])
  /\ IF i = Len(Trace) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

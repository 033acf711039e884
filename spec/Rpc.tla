-------------------------------- MODULE Rpc --------------------------------
(* What can be seen of an RPC loop: lines that arrive, the handler's turns, lines *)
(* that leave, requests made to the peer and what came of them, tasks and timers. *)
(* One global order of events; an event is recorded when it is known to have      *)
(* happened (rd: the reader is through with line n; se: scheduling has returned). *)
EXTENDS VUtil, Integers

None == 0
NewLoop == [msgs |-> <<>>,        \* lines for the main loop, in arrival order: [n, k, id]
            nexti |-> 1,          \* the first of them that has not been begun
            read |-> 0,           \* the reader is through with lines 1..read
            readAt |-> 0,         \* read when the main loop last ended something
            endAt |-> 0,          \* and when (event number) that was
            cur |-> None,         \* line being handled
            task |-> None,        \* task being run
            owe |-> <<>>,         \* id and result still to be written
            called |-> {}, asked |-> {}, ans |-> <<>>, fate |-> <<>>,   \* requests to the peer
            toks |-> <<>>,        \* scheduled tasks: [tok, due, sb, se, ran, timer]
            noted |-> {}, notes |-> {},
            pendFalse |-> FALSE, pending |-> FALSE,
            stopAt |-> None,      \* line that ends the loop
            panic |-> FALSE, broken |-> FALSE, ret |-> ""]

Ends == {"eof", "junk", "badntf", "weird"}
ForMain == {"req", "ntf", "badreq"} \cup Ends
Busy(s) == s.cur # None \/ s.task # None \/ s.owe # <<>>
Waiting(s) == {j \in s.nexti..Len(s.msgs) : TRUE}
MainEnd(s, t) == [s EXCEPT !.readAt = s.read, !.endAt = t]

In(s, ev) ==
  LET a == IF ev.k \in ForMain THEN [s EXCEPT !.msgs = Append(@, [n |-> ev.n, k |-> ev.k, id |-> ev.id])] ELSE s
      b == IF ev.k \in Ends /\ a.stopAt = None THEN [a EXCEPT !.stopAt = ev.n] ELSE a
  IN IF ev.k = "answer" /\ \A j \in 1..Len(b.ans) : b.ans[j].c # ev.c
     THEN [b EXCEPT !.ans = Append(@, [c |-> ev.c, n |-> ev.n, r |-> ev.r])] ELSE b

(* a turn of the handler begins: the next line, and nothing else is going on *)
BeginOk(s, ev) == /\ ~Busy(s) /\ s.ret = "" /\ ~s.panic
                  /\ s.nexti <= Len(s.msgs) /\ s.msgs[s.nexti].n = ev.n /\ s.msgs[s.nexti].k = ev.k
Begin(s, ev) == [s EXCEPT !.cur = ev.n, !.nexti = @ + 1]
EndOk(s, ev) == s.cur = ev.n /\ (ev.r = "none") = (s.msgs[s.nexti - 1].k = "ntf")
End(s, ev, t) == IF ev.r = "none" THEN MainEnd([s EXCEPT !.cur = None], t)
                 ELSE [s EXCEPT !.cur = None, !.owe = <<s.msgs[s.nexti - 1].id, ev.r>>]

(* an answer leaves: the one that is owed, or a complaint about the next line *)
BadNext(s) == /\ s.cur = None /\ s.task = None /\ s.owe = <<>> /\ s.ret = ""
              /\ s.nexti <= Len(s.msgs) /\ s.msgs[s.nexti].k = "badreq"
RespOk(s, ev) == IF s.owe # <<>> THEN s.owe = <<ev.id, ev.r>>
                 ELSE BadNext(s) /\ s.msgs[s.nexti].id = ev.id /\ SubSeq(ev.r, 1, 4) = "err:"
Resp(s, t) == IF s.owe # <<>> THEN MainEnd([s EXCEPT !.owe = <<>>], t)
              ELSE MainEnd([s EXCEPT !.nexti = @ + 1], t)

(* requests to the peer *)
AnsOf(s, c) == {j \in 1..Len(s.ans) : s.ans[j].c = c}
Dead(s, n) == s.panic \/ s.ret # "" \/ (s.stopAt # None /\ s.stopAt < n)      \* before line n
DoneOk(s, ev) ==
  /\ ev.c \in s.called /\ \A j \in 1..Len(s.fate) : s.fate[j] # ev.c
  /\ CASE ev.r = "gone" -> LET a == AnsOf(s, ev.c) IN
                           IF a = {} THEN Dead(s, 2147483647) ELSE Dead(s, s.ans[SMin(a)].n)
       [] ev.r = "io" -> s.broken
       [] OTHER -> \E j \in AnsOf(s, ev.c) : s.ans[j].r = ev.r
Done(s, ev) == [s EXCEPT !.fate = Append(@, ev.c)]

(* tasks *)
TokAt(s, tok) == CHOOSE j \in 1..Len(s.toks) : s.toks[j].tok = tok
RunOk(s, ev) ==
  /\ ~s.panic /\ s.ret = "" /\ ~Busy(s)
  /\ \E j \in 1..Len(s.toks) : s.toks[j].tok = ev.tok
  /\ LET e == s.toks[TokAt(s, ev.tok)] IN
     /\ ~e.ran /\ ev.t >= e.due
     /\ \A j \in Waiting(s) : s.msgs[j].n > s.readAt                   \* no line was waiting
     /\ ~e.timer => \A j \in 1..Len(s.toks) :                          \* first come, first served
          ~s.toks[j].timer /\ s.toks[j].se # 0 /\ s.toks[j].se < e.sb => s.toks[j].ran
     /\ e.timer => \A j \in 1..Len(s.toks) :                           \* the earliest first
          s.toks[j].timer /\ s.toks[j].se # 0 /\ s.toks[j].se < s.endAt /\ s.toks[j].due < e.due => s.toks[j].ran
Run(s, ev) == [s EXCEPT !.task = ev.tok, !.toks[TokAt(s, ev.tok)].ran = TRUE]

(* is a line waiting?  FALSE may not be said when one surely was, TRUE not when none has arrived *)
PendBegin(s) == [s EXCEPT !.pendFalse = ~\E j \in Waiting(s) : s.msgs[j].n <= s.read]
PendOk(s, ev) == IF ev.r THEN Waiting(s) # {} ELSE s.pendFalse

RetOk(s, ev) ==
  /\ s.ret = "" /\ s.task = None /\ (~s.panic => s.cur = None) /\ s.owe = <<>>
  /\ CASE s.panic -> ev.r = "panic"
       [] OTHER -> /\ s.nexti <= Len(s.msgs) /\ s.msgs[s.nexti].k \in Ends
                   /\ ev.r = IF s.msgs[s.nexti].k = "eof" THEN "ok" ELSE "err"

AllDone(s) == Rng(s.fate) = s.called /\ s.notes = s.noted
SettledOk(s) == s.panic \/ s.stopAt # None \/
                (s.nexti > Len(s.msgs) /\ ~Busy(s) /\ AllDone(s) /\ \A j \in 1..Len(s.toks) : s.toks[j].ran)
EndAllOk(s) == s.ret # "" /\ AllDone(s)

(* -> [ok, s] *)
Res(ok, s) == [ok |-> ok, s |-> s]
On(s, ev, t) ==
  CASE ev.op = "new" -> Res(TRUE, NewLoop)
    [] ev.op = "in" -> Res(TRUE, In(s, ev))
    [] ev.op = "rd" -> Res(ev.n > s.read, [s EXCEPT !.read = ev.n])
    [] ev.op = "hb" -> Res(BeginOk(s, ev), Begin(s, ev))
    [] ev.op = "he" -> Res(EndOk(s, ev), End(s, ev, t))
    [] ev.op = "out" /\ ev.k = "resp" -> Res(RespOk(s, ev), Resp(s, t))
    [] ev.op = "out" /\ ev.k = "call" -> Res(ev.c \in s.called /\ ev.c \notin s.asked, [s EXCEPT !.asked = @ \cup {ev.c}])
    [] ev.op = "out" /\ ev.k = "note" -> Res(ev.c \in s.noted /\ ev.c \notin s.notes, [s EXCEPT !.notes = @ \cup {ev.c}])
    [] ev.op = "nb" -> Res(TRUE, [s EXCEPT !.noted = @ \cup {ev.c}])
    [] ev.op = "ne" -> Res(ev.c \in s.notes, s)
    [] ev.op = "call" -> Res(TRUE, [s EXCEPT !.called = @ \cup {ev.c}])
    [] ev.op = "done" -> Res(DoneOk(s, ev), Done(s, ev))
    [] ev.op = "sb" -> Res(TRUE, [s EXCEPT !.toks = Append(@, [tok |-> ev.tok, due |-> ev.due, sb |-> t, se |-> 0,
                                                             ran |-> FALSE, timer |-> ev.k = "timer"])])
    [] ev.op = "se" -> Res(TRUE, [s EXCEPT !.toks[TokAt(s, ev.tok)].se = t])
    [] ev.op = "ib" -> Res(RunOk(s, ev), Run(s, ev))
    [] ev.op = "ie" -> Res(s.task = ev.tok, MainEnd([s EXCEPT !.task = None], t))
    [] ev.op = "pb" -> Res(TRUE, PendBegin(s))
    [] ev.op = "pe" -> Res(PendOk(s, ev), s)
    [] ev.op = "panics" -> Res(TRUE, [s EXCEPT !.panic = TRUE, !.cur = None, !.task = None])
    [] ev.op = "brk" -> Res(TRUE, [s EXCEPT !.broken = TRUE])
    [] ev.op = "ret" -> Res(RetOk(s, ev), [s EXCEPT !.ret = ev.r])
    [] ev.op = "settled" -> Res(SettledOk(s), s)
    [] ev.op = "end" -> Res(EndAllOk(s), s)
    [] OTHER -> Res(FALSE, s)                       \* stuck, garbage, hang, crash
=============================================================================

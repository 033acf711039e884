------------------------------- MODULE RpcMC -------------------------------
(* The RPC loop as it is written: the thread that reads, the main loop, other     *)
(* threads that send requests, and the peer, which may answer any request in any  *)
(* order or not at all, send calls, send nonsense, and close at any moment.  One  *)
(* label is one step between two synchronisations of the code.                    *)
(* Fixed = FALSE is the algorithm as it was found: TLC shows how it hangs.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxMsgs, Outside, Fixed
Kinds == {"plain", "sync", "async", "idle", "bad", "badnotif"}
Main == "main"
Reader == "reader"
Peer == "peer"
NoMsg == [k |-> "none", n |-> 0]

(* --algorithm Rpc
variables
  net = <<>>, open = TRUE, sent = 0, seen = {}, answered = {},
  rx = <<>>, idle = 0, ran = 0, lock = "free", pending = {}, nextId = 0,
  closed = FALSE, blocked = FALSE, needsExit = FALSE, readerDone = FALSE,
  started = {}, done = {}, twice = FALSE, handled = <<>>, replied = <<>>, returned = FALSE;

define
  MinOf(S) == CHOOSE p \in S : \A q \in S : p.id <= q.id
end define;

(* a result is delivered: to a waiting thread, or to a callback (which may ask something itself) *)
procedure Deliver(item)
begin
v1: twice := twice \/ item.call \in done;
    done := done \cup {item.call};
    if item.call[1] = "async" then
v2:   call Ask(<<"nested", item.call[2]>>);
    end if;
v3: return;
end procedure;

procedure Ask(what)
variables my = 0;
begin
a1: started := started \cup {what};
    my := nextId; nextId := nextId + 1;
a2: await lock = "free";
    if Fixed /\ closed then goto a6;                         \* the lock is taken and given back in one step
    else pending := pending \cup {[id |-> my, call |-> what]}; end if;
a4: if open then seen := seen \cup {my}; return;             \* written
    end if;
a5: await lock = "free";                                     \* writing failed
    if \E p \in pending : p.id = my then
      pending := {p \in pending : p.id # my};
      if ~Fixed then lock := self; end if;
a6:   call Deliver([id |-> my, call |-> what]);
a7:   if lock = self then lock := "free"; end if;
    end if;
a8: return;
end procedure;

procedure Disconnect()
variables mine = {};
begin
d1: await lock = "free";
    if Fixed then mine := pending; pending := {}; closed := TRUE;
    else lock := self; end if;
d2: while (Fixed /\ mine # {}) \/ (~Fixed /\ pending # {}) do
      if Fixed then
        with p = MinOf(mine) do mine := mine \ {p}; call Deliver(p); end with;
      else
        with p = MinOf(pending) do pending := pending \ {p}; call Deliver(p); end with;
      end if;
    end while;
d3: if ~Fixed then lock := "free"; end if;
    needsExit := TRUE;
    return;
end procedure;

fair process reader = Reader
variables msg = NoMsg;
begin
r0: while ~needsExit do
r1:   await net # <<>> \/ ~open;
      if net # <<>> then msg := Head(net); net := Tail(net);
      else msg := [k |-> "eof", n |-> 0]; end if;
r2:   if msg.k \in {"eof", "bad"} then
        if Fixed then
r3:       await lock = "free"; closed := TRUE;
        end if;
r4:     if blocked then call Disconnect(); end if;
r5:     rx := Append(rx, msg);
        goto rend;
      elsif msg.k = "resp" then
r6:     await lock = "free";
        if \E p \in pending : p.id = msg.n then
          with p = CHOOSE q \in pending : q.id = msg.n do
            pending := pending \ {p};
            call Deliver(p);
          end with;
        end if;
      else
r7:     rx := Append(rx, msg);
      end if;
    end while;
rend: readerDone := TRUE;
end process;

fair process main = Main
variables cur = NoMsg;
begin
m0: while TRUE do
m1:   await rx # <<>> \/ idle > 0;
      if rx = <<>> then
        idle := idle - 1; ran := ran + 1;
      else
        cur := Head(rx); rx := Tail(rx);
m2:     if cur.k \in {"eof", "bad", "badnotif"} then
          if cur.k # "badnotif" /\ idle > 0 then idle := idle - 1; ran := ran + 1; end if;
m3:       call Disconnect();
m4:       goto mend;
        else
          handled := Append(handled, cur.n);
          if cur.k = "sync" then
m5:         blocked := TRUE;
m6:         call Ask(<<"sync", cur.n>>);
m7:         await <<"sync", cur.n>> \in done;
          elsif cur.k = "async" then
m8:         call Ask(<<"async", cur.n>>);
          elsif cur.k = "idle" then
m9:         idle := idle + 1;
          end if;
m10:      replied := Append(replied, cur.n);
        end if;
      end if;
    end while;
mend: await readerDone;
      returned := TRUE;
end process;

fair process other \in Outside
begin
o1: either skip; or
o2:   blocked := TRUE;
o3:   call Ask(<<"other", self>>);
o4:   await <<"other", self>> \in done;
    end either;
end process;

fair process peer = Peer
begin
p1: while open do
      either
        await sent < MaxMsgs;
        with k \in Kinds do
          net := Append(net, [k |-> k, n |-> sent + 1]);
          sent := sent + 1;
        end with;
      or
        with q \in seen \ answered do
          net := Append(net, [k |-> "resp", n |-> q]);
          answered := answered \cup {q};
        end with;
      or open := FALSE;
      end either;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "31238063" /\ chksum(tla) = "8327a72e")
CONSTANT defaultInitValue
VARIABLES pc, net, open, sent, seen, answered, rx, idle, ran, lock, pending, 
          nextId, closed, blocked, needsExit, readerDone, started, done, 
          twice, handled, replied, returned, stack

(* define statement *)
MinOf(S) == CHOOSE p \in S : \A q \in S : p.id <= q.id

VARIABLES item, what, my, mine, msg, cur

vars == << pc, net, open, sent, seen, answered, rx, idle, ran, lock, pending, 
           nextId, closed, blocked, needsExit, readerDone, started, done, 
           twice, handled, replied, returned, stack, item, what, my, mine, 
           msg, cur >>

ProcSet == {Reader} \cup {Main} \cup (Outside) \cup {Peer}

Init == (* Global variables *)
        /\ net = <<>>
        /\ open = TRUE
        /\ sent = 0
        /\ seen = {}
        /\ answered = {}
        /\ rx = <<>>
        /\ idle = 0
        /\ ran = 0
        /\ lock = "free"
        /\ pending = {}
        /\ nextId = 0
        /\ closed = FALSE
        /\ blocked = FALSE
        /\ needsExit = FALSE
        /\ readerDone = FALSE
        /\ started = {}
        /\ done = {}
        /\ twice = FALSE
        /\ handled = <<>>
        /\ replied = <<>>
        /\ returned = FALSE
        (* Procedure Deliver *)
        /\ item = [ self \in ProcSet |-> defaultInitValue]
        (* Procedure Ask *)
        /\ what = [ self \in ProcSet |-> defaultInitValue]
        /\ my = [ self \in ProcSet |-> 0]
        (* Procedure Disconnect *)
        /\ mine = [ self \in ProcSet |-> {}]
        (* Process reader *)
        /\ msg = NoMsg
        (* Process main *)
        /\ cur = NoMsg
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = Reader -> "r0"
                                        [] self = Main -> "m0"
                                        [] self \in Outside -> "o1"
                                        [] self = Peer -> "p1"]

v1(self) == /\ pc[self] = "v1"
            /\ twice' = (twice \/ item[self].call \in done)
            /\ done' = (done \cup {item[self].call})
            /\ IF item[self].call[1] = "async"
                  THEN /\ pc' = [pc EXCEPT ![self] = "v2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "v3"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, handled, replied, returned, 
                            stack, item, what, my, mine, msg, cur >>

v2(self) == /\ pc[self] = "v2"
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Ask",
                                                        pc        |->  "v3",
                                                        my        |->  my[self],
                                                        what      |->  what[self] ] >>
                                                    \o stack[self]]
               /\ what' = [what EXCEPT ![self] = <<"nested", item[self].call[2]>>]
            /\ my' = [my EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "a1"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, item, mine, msg, cur >>

v3(self) == /\ pc[self] = "v3"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ item' = [item EXCEPT ![self] = Head(stack[self]).item]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, what, my, mine, msg, cur >>

Deliver(self) == v1(self) \/ v2(self) \/ v3(self)

a1(self) == /\ pc[self] = "a1"
            /\ started' = (started \cup {what[self]})
            /\ my' = [my EXCEPT ![self] = nextId]
            /\ nextId' = nextId + 1
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, closed, blocked, needsExit, 
                            readerDone, done, twice, handled, replied, 
                            returned, stack, item, what, mine, msg, cur >>

a2(self) == /\ pc[self] = "a2"
            /\ lock = "free"
            /\ IF Fixed /\ closed
                  THEN /\ pc' = [pc EXCEPT ![self] = "a6"]
                       /\ UNCHANGED pending
                  ELSE /\ pending' = (pending \cup {[id |-> my[self], call |-> what[self]]})
                       /\ pc' = [pc EXCEPT ![self] = "a4"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, stack, item, what, my, mine, msg, cur >>

a4(self) == /\ pc[self] = "a4"
            /\ IF open
                  THEN /\ seen' = (seen \cup {my[self]})
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ my' = [my EXCEPT ![self] = Head(stack[self]).my]
                       /\ what' = [what EXCEPT ![self] = Head(stack[self]).what]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a5"]
                       /\ UNCHANGED << seen, stack, what, my >>
            /\ UNCHANGED << net, open, sent, answered, rx, idle, ran, lock, 
                            pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, item, mine, msg, cur >>

a5(self) == /\ pc[self] = "a5"
            /\ lock = "free"
            /\ IF \E p \in pending : p.id = my[self]
                  THEN /\ pending' = {p \in pending : p.id # my[self]}
                       /\ IF ~Fixed
                             THEN /\ lock' = self
                             ELSE /\ TRUE
                                  /\ lock' = lock
                       /\ pc' = [pc EXCEPT ![self] = "a6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a8"]
                       /\ UNCHANGED << lock, pending >>
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            nextId, closed, blocked, needsExit, readerDone, 
                            started, done, twice, handled, replied, returned, 
                            stack, item, what, my, mine, msg, cur >>

a6(self) == /\ pc[self] = "a6"
            /\ /\ item' = [item EXCEPT ![self] = [id |-> my[self], call |-> what[self]]]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Deliver",
                                                        pc        |->  "a7",
                                                        item      |->  item[self] ] >>
                                                    \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "v1"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, what, my, mine, msg, cur >>

a7(self) == /\ pc[self] = "a7"
            /\ IF lock = self
                  THEN /\ lock' = "free"
                  ELSE /\ TRUE
                       /\ lock' = lock
            /\ pc' = [pc EXCEPT ![self] = "a8"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, stack, item, what, my, mine, msg, cur >>

a8(self) == /\ pc[self] = "a8"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ my' = [my EXCEPT ![self] = Head(stack[self]).my]
            /\ what' = [what EXCEPT ![self] = Head(stack[self]).what]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, item, mine, msg, cur >>

Ask(self) == a1(self) \/ a2(self) \/ a4(self) \/ a5(self) \/ a6(self)
                \/ a7(self) \/ a8(self)

d1(self) == /\ pc[self] = "d1"
            /\ lock = "free"
            /\ IF Fixed
                  THEN /\ mine' = [mine EXCEPT ![self] = pending]
                       /\ pending' = {}
                       /\ closed' = TRUE
                       /\ lock' = lock
                  ELSE /\ lock' = self
                       /\ UNCHANGED << pending, closed, mine >>
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            nextId, blocked, needsExit, readerDone, started, 
                            done, twice, handled, replied, returned, stack, 
                            item, what, my, msg, cur >>

d2(self) == /\ pc[self] = "d2"
            /\ IF (Fixed /\ mine[self] # {}) \/ (~Fixed /\ pending # {})
                  THEN /\ IF Fixed
                             THEN /\ LET p == MinOf(mine[self]) IN
                                       /\ mine' = [mine EXCEPT ![self] = mine[self] \ {p}]
                                       /\ /\ item' = [item EXCEPT ![self] = p]
                                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Deliver",
                                                                                   pc        |->  "d2",
                                                                                   item      |->  item[self] ] >>
                                                                               \o stack[self]]
                                       /\ pc' = [pc EXCEPT ![self] = "v1"]
                                  /\ UNCHANGED pending
                             ELSE /\ LET p == MinOf(pending) IN
                                       /\ pending' = pending \ {p}
                                       /\ /\ item' = [item EXCEPT ![self] = p]
                                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Deliver",
                                                                                   pc        |->  "d2",
                                                                                   item      |->  item[self] ] >>
                                                                               \o stack[self]]
                                       /\ pc' = [pc EXCEPT ![self] = "v1"]
                                  /\ mine' = mine
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d3"]
                       /\ UNCHANGED << pending, stack, item, mine >>
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, what, my, msg, cur >>

d3(self) == /\ pc[self] = "d3"
            /\ IF ~Fixed
                  THEN /\ lock' = "free"
                  ELSE /\ TRUE
                       /\ lock' = lock
            /\ needsExit' = TRUE
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            pending, nextId, closed, blocked, readerDone, 
                            started, done, twice, handled, replied, returned, 
                            item, what, my, msg, cur >>

Disconnect(self) == d1(self) \/ d2(self) \/ d3(self)

r0 == /\ pc[Reader] = "r0"
      /\ IF ~needsExit
            THEN /\ pc' = [pc EXCEPT ![Reader] = "r1"]
            ELSE /\ pc' = [pc EXCEPT ![Reader] = "rend"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

r1 == /\ pc[Reader] = "r1"
      /\ net # <<>> \/ ~open
      /\ IF net # <<>>
            THEN /\ msg' = Head(net)
                 /\ net' = Tail(net)
            ELSE /\ msg' = [k |-> "eof", n |-> 0]
                 /\ net' = net
      /\ pc' = [pc EXCEPT ![Reader] = "r2"]
      /\ UNCHANGED << open, sent, seen, answered, rx, idle, ran, lock, pending, 
                      nextId, closed, blocked, needsExit, readerDone, started, 
                      done, twice, handled, replied, returned, stack, item, 
                      what, my, mine, cur >>

r2 == /\ pc[Reader] = "r2"
      /\ IF msg.k \in {"eof", "bad"}
            THEN /\ IF Fixed
                       THEN /\ pc' = [pc EXCEPT ![Reader] = "r3"]
                       ELSE /\ pc' = [pc EXCEPT ![Reader] = "r4"]
            ELSE /\ IF msg.k = "resp"
                       THEN /\ pc' = [pc EXCEPT ![Reader] = "r6"]
                       ELSE /\ pc' = [pc EXCEPT ![Reader] = "r7"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

r4 == /\ pc[Reader] = "r4"
      /\ IF blocked
            THEN /\ stack' = [stack EXCEPT ![Reader] = << [ procedure |->  "Disconnect",
                                                            pc        |->  "r5",
                                                            mine      |->  mine[Reader] ] >>
                                                        \o stack[Reader]]
                 /\ mine' = [mine EXCEPT ![Reader] = {}]
                 /\ pc' = [pc EXCEPT ![Reader] = "d1"]
            ELSE /\ pc' = [pc EXCEPT ![Reader] = "r5"]
                 /\ UNCHANGED << stack, mine >>
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, item, 
                      what, my, msg, cur >>

r5 == /\ pc[Reader] = "r5"
      /\ rx' = Append(rx, msg)
      /\ pc' = [pc EXCEPT ![Reader] = "rend"]
      /\ UNCHANGED << net, open, sent, seen, answered, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

r3 == /\ pc[Reader] = "r3"
      /\ lock = "free"
      /\ closed' = TRUE
      /\ pc' = [pc EXCEPT ![Reader] = "r4"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, blocked, needsExit, readerDone, started, 
                      done, twice, handled, replied, returned, stack, item, 
                      what, my, mine, msg, cur >>

r6 == /\ pc[Reader] = "r6"
      /\ lock = "free"
      /\ IF \E p \in pending : p.id = msg.n
            THEN /\ LET p == CHOOSE q \in pending : q.id = msg.n IN
                      /\ pending' = pending \ {p}
                      /\ /\ item' = [item EXCEPT ![Reader] = p]
                         /\ stack' = [stack EXCEPT ![Reader] = << [ procedure |->  "Deliver",
                                                                    pc        |->  "r0",
                                                                    item      |->  item[Reader] ] >>
                                                                \o stack[Reader]]
                      /\ pc' = [pc EXCEPT ![Reader] = "v1"]
            ELSE /\ pc' = [pc EXCEPT ![Reader] = "r0"]
                 /\ UNCHANGED << pending, stack, item >>
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      nextId, closed, blocked, needsExit, readerDone, started, 
                      done, twice, handled, replied, returned, what, my, mine, 
                      msg, cur >>

r7 == /\ pc[Reader] = "r7"
      /\ rx' = Append(rx, msg)
      /\ pc' = [pc EXCEPT ![Reader] = "r0"]
      /\ UNCHANGED << net, open, sent, seen, answered, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

rend == /\ pc[Reader] = "rend"
        /\ readerDone' = TRUE
        /\ pc' = [pc EXCEPT ![Reader] = "Done"]
        /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                        pending, nextId, closed, blocked, needsExit, started, 
                        done, twice, handled, replied, returned, stack, item, 
                        what, my, mine, msg, cur >>

reader == r0 \/ r1 \/ r2 \/ r4 \/ r5 \/ r3 \/ r6 \/ r7 \/ rend

m0 == /\ pc[Main] = "m0"
      /\ pc' = [pc EXCEPT ![Main] = "m1"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

m1 == /\ pc[Main] = "m1"
      /\ rx # <<>> \/ idle > 0
      /\ IF rx = <<>>
            THEN /\ idle' = idle - 1
                 /\ ran' = ran + 1
                 /\ pc' = [pc EXCEPT ![Main] = "m0"]
                 /\ UNCHANGED << rx, cur >>
            ELSE /\ cur' = Head(rx)
                 /\ rx' = Tail(rx)
                 /\ pc' = [pc EXCEPT ![Main] = "m2"]
                 /\ UNCHANGED << idle, ran >>
      /\ UNCHANGED << net, open, sent, seen, answered, lock, pending, nextId, 
                      closed, blocked, needsExit, readerDone, started, done, 
                      twice, handled, replied, returned, stack, item, what, my, 
                      mine, msg >>

m2 == /\ pc[Main] = "m2"
      /\ IF cur.k \in {"eof", "bad", "badnotif"}
            THEN /\ IF cur.k # "badnotif" /\ idle > 0
                       THEN /\ idle' = idle - 1
                            /\ ran' = ran + 1
                       ELSE /\ TRUE
                            /\ UNCHANGED << idle, ran >>
                 /\ pc' = [pc EXCEPT ![Main] = "m3"]
                 /\ UNCHANGED handled
            ELSE /\ handled' = Append(handled, cur.n)
                 /\ IF cur.k = "sync"
                       THEN /\ pc' = [pc EXCEPT ![Main] = "m5"]
                       ELSE /\ IF cur.k = "async"
                                  THEN /\ pc' = [pc EXCEPT ![Main] = "m8"]
                                  ELSE /\ IF cur.k = "idle"
                                             THEN /\ pc' = [pc EXCEPT ![Main] = "m9"]
                                             ELSE /\ pc' = [pc EXCEPT ![Main] = "m10"]
                 /\ UNCHANGED << idle, ran >>
      /\ UNCHANGED << net, open, sent, seen, answered, rx, lock, pending, 
                      nextId, closed, blocked, needsExit, readerDone, started, 
                      done, twice, replied, returned, stack, item, what, my, 
                      mine, msg, cur >>

m3 == /\ pc[Main] = "m3"
      /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "Disconnect",
                                               pc        |->  "m4",
                                               mine      |->  mine[Main] ] >>
                                           \o stack[Main]]
      /\ mine' = [mine EXCEPT ![Main] = {}]
      /\ pc' = [pc EXCEPT ![Main] = "d1"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, item, 
                      what, my, msg, cur >>

m4 == /\ pc[Main] = "m4"
      /\ pc' = [pc EXCEPT ![Main] = "mend"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

m10 == /\ pc[Main] = "m10"
       /\ replied' = Append(replied, cur.n)
       /\ pc' = [pc EXCEPT ![Main] = "m0"]
       /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                       pending, nextId, closed, blocked, needsExit, readerDone, 
                       started, done, twice, handled, returned, stack, item, 
                       what, my, mine, msg, cur >>

m5 == /\ pc[Main] = "m5"
      /\ blocked' = TRUE
      /\ pc' = [pc EXCEPT ![Main] = "m6"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, needsExit, readerDone, started, 
                      done, twice, handled, replied, returned, stack, item, 
                      what, my, mine, msg, cur >>

m6 == /\ pc[Main] = "m6"
      /\ /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "Ask",
                                                  pc        |->  "m7",
                                                  my        |->  my[Main],
                                                  what      |->  what[Main] ] >>
                                              \o stack[Main]]
         /\ what' = [what EXCEPT ![Main] = <<"sync", cur.n>>]
      /\ my' = [my EXCEPT ![Main] = 0]
      /\ pc' = [pc EXCEPT ![Main] = "a1"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, item, 
                      mine, msg, cur >>

m7 == /\ pc[Main] = "m7"
      /\ <<"sync", cur.n>> \in done
      /\ pc' = [pc EXCEPT ![Main] = "m10"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, stack, 
                      item, what, my, mine, msg, cur >>

m8 == /\ pc[Main] = "m8"
      /\ /\ stack' = [stack EXCEPT ![Main] = << [ procedure |->  "Ask",
                                                  pc        |->  "m10",
                                                  my        |->  my[Main],
                                                  what      |->  what[Main] ] >>
                                              \o stack[Main]]
         /\ what' = [what EXCEPT ![Main] = <<"async", cur.n>>]
      /\ my' = [my EXCEPT ![Main] = 0]
      /\ pc' = [pc EXCEPT ![Main] = "a1"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                      pending, nextId, closed, blocked, needsExit, readerDone, 
                      started, done, twice, handled, replied, returned, item, 
                      mine, msg, cur >>

m9 == /\ pc[Main] = "m9"
      /\ idle' = idle + 1
      /\ pc' = [pc EXCEPT ![Main] = "m10"]
      /\ UNCHANGED << net, open, sent, seen, answered, rx, ran, lock, pending, 
                      nextId, closed, blocked, needsExit, readerDone, started, 
                      done, twice, handled, replied, returned, stack, item, 
                      what, my, mine, msg, cur >>

mend == /\ pc[Main] = "mend"
        /\ readerDone
        /\ returned' = TRUE
        /\ pc' = [pc EXCEPT ![Main] = "Done"]
        /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, lock, 
                        pending, nextId, closed, blocked, needsExit, 
                        readerDone, started, done, twice, handled, replied, 
                        stack, item, what, my, mine, msg, cur >>

main == m0 \/ m1 \/ m2 \/ m3 \/ m4 \/ m10 \/ m5 \/ m6 \/ m7 \/ m8 \/ m9
           \/ mend

o1(self) == /\ pc[self] = "o1"
            /\ \/ /\ TRUE
                  /\ pc' = [pc EXCEPT ![self] = "Done"]
               \/ /\ pc' = [pc EXCEPT ![self] = "o2"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, stack, item, what, my, mine, msg, cur >>

o2(self) == /\ pc[self] = "o2"
            /\ blocked' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "o3"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, stack, item, what, my, mine, msg, cur >>

o3(self) == /\ pc[self] = "o3"
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "Ask",
                                                        pc        |->  "o4",
                                                        my        |->  my[self],
                                                        what      |->  what[self] ] >>
                                                    \o stack[self]]
               /\ what' = [what EXCEPT ![self] = <<"other", self>>]
            /\ my' = [my EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "a1"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, item, mine, msg, cur >>

o4(self) == /\ pc[self] = "o4"
            /\ <<"other", self>> \in done
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << net, open, sent, seen, answered, rx, idle, ran, 
                            lock, pending, nextId, closed, blocked, needsExit, 
                            readerDone, started, done, twice, handled, replied, 
                            returned, stack, item, what, my, mine, msg, cur >>

other(self) == o1(self) \/ o2(self) \/ o3(self) \/ o4(self)

p1 == /\ pc[Peer] = "p1"
      /\ IF open
            THEN /\ \/ /\ sent < MaxMsgs
                       /\ \E k \in Kinds:
                            /\ net' = Append(net, [k |-> k, n |-> sent + 1])
                            /\ sent' = sent + 1
                       /\ UNCHANGED <<open, answered>>
                    \/ /\ \E q \in seen \ answered:
                            /\ net' = Append(net, [k |-> "resp", n |-> q])
                            /\ answered' = (answered \cup {q})
                       /\ UNCHANGED <<open, sent>>
                    \/ /\ open' = FALSE
                       /\ UNCHANGED <<net, sent, answered>>
                 /\ pc' = [pc EXCEPT ![Peer] = "p1"]
            ELSE /\ pc' = [pc EXCEPT ![Peer] = "Done"]
                 /\ UNCHANGED << net, open, sent, answered >>
      /\ UNCHANGED << seen, rx, idle, ran, lock, pending, nextId, closed, 
                      blocked, needsExit, readerDone, started, done, twice, 
                      handled, replied, returned, stack, item, what, my, mine, 
                      msg, cur >>

peer == p1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == reader \/ main \/ peer
           \/ (\E self \in ProcSet:  \/ Deliver(self) \/ Ask(self)
                                     \/ Disconnect(self))
           \/ (\E self \in Outside: other(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ /\ WF_vars(reader)
           /\ WF_vars(Disconnect(Reader))
           /\ WF_vars(Deliver(Reader))
           /\ WF_vars(Ask(Reader))
        /\ /\ WF_vars(main)
           /\ WF_vars(Disconnect(Main))
           /\ WF_vars(Ask(Main))
           /\ WF_vars(Deliver(Main))
        /\ \A self \in Outside : WF_vars(other(self)) /\ WF_vars(Ask(self)) /\ WF_vars(Deliver(self))
        /\ WF_vars(peer)

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 

(* ------------------------------------------------------------------ properties *)
Once == ~twice
InOrder == \A k \in 1..Len(handled) : k > 1 => handled[k - 1] < handled[k]
Replied == \A k \in 1..Len(replied) : replied[k] = handled[k]
(* nobody waits for ever *)
Ends == <>(returned /\ started = done)
AllAnswered == returned => replied = handled
=============================================================================

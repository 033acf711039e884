-------------------------------- MODULE PlugMC --------------------------------
(* Plugins that lag behind, as a design: updates wait in their queues, are       *)
(* applied to their copies, acknowledged later, and edits come for any revision  *)
(* not yet acknowledged past.  History is discarded only while nothing waits;    *)
(* without that rule (cfg PlugMC_bad) a plugin can name what is gone.            *)
EXTENDS Plug

CONSTANTS Steps, Lag, Plugins
VARIABLES b, mir, q, seen, base, n, chk
vars == <<b, mir, q, seen, base, n, chk>>
(* mir: copies; q: updates sent and not applied; seen: applied and not acknowledged; *)
(* base: the revision acknowledged last                                              *)

Few == 3
Always(x) == TRUE
Up == [p \in 1..Plugins |-> TRUE]
Ids(x) == {x[k] : k \in 1..Len(x)}
Ordered(x, y) ==              \* characters both have are in the same order
  LET c == SelectSeq(x, LAMBDA i : i \in Ids(y)) d == SelectSeq(y, LAMBDA i : i \in Ids(x)) IN c = d

Init == /\ b = Buffer(<<97, 98>>, Plugins)
        /\ mir = [p \in 1..Plugins |-> Now(b)] /\ q = [p \in 1..Plugins |-> <<>>] /\ seen = [p \in 1..Plugins |-> <<>>]
        /\ base = [p \in 1..Plugins |-> NRev(b.d)] /\ n = 0 /\ chk = TRUE

Send(b2) == q' = [p \in 1..Plugins |-> Append(q[p], [rev |-> NRev(b2.d), txt |-> Now(b2)])]
Free == \A p \in 1..Plugins : Len(q[p]) + Len(seen[p]) < Lag
Command(r) ==
  /\ n < Steps /\ n' = n + 1
  /\ r[2] /\ Free
  /\ b' = r[1] /\ Send(r[1]) /\ chk' = (HeadText(r[1].d) = Now(r[1]))
  /\ UNCHANGED <<mir, seen, base>>

Els(k, del, len) ==
  SelectSeq(<<[k |-> "c", b |-> 0, e |-> k, ids |-> <<>>], [k |-> "i", b |-> 0, e |-> 0, ids |-> <<112>>],
              [k |-> "c", b |-> k + del, e |-> len, ids |-> <<>>]>>, LAMBDA x : x.k = "i" \/ x.e > x.b)
PEdit(p) ==
  \E r \in base[p]..NRev(b.d) :
    /\ r = base[p] \/ \E k \in 1..Len(seen[p]) : seen[p][k].rev = r        \* revisions it has
    /\ n < Steps /\ n' = n + 1 /\ Free
    /\ LET len == Len(Text(b.d, r)) IN
       \E k \in {0, len}, del \in 0..1 :
         /\ k + del <= len
         /\ LET ev == [base |-> r, bad |-> FALSE, grp |-> -1, prio |-> 1, els |-> Els(k, del, len)]
                res == PluginEdit(b, Up, ev)
                gone == IF del = 1 THEN {Text(b.d, r)[k + 1]} ELSE {}
                old == Now(b) new == Now(res[1])
                fresh == <<112, b.next + 1>> IN
            /\ b' = res[1] /\ Send(res[1])
            (* nothing else changes, and what was inserted is there *)
            /\ chk' = (Ids(new) = (Ids(old) \ gone) \cup {fresh} /\ Ordered(old, new)
                       /\ \A i \in Ids(Text(b.d, r)) \cap Ids(new) : TRUE)
  /\ UNCHANGED <<mir, seen, base>>

Deliver(p) ==
  /\ q[p] # <<>>
  /\ mir' = [mir EXCEPT ![p] = q[p][1].txt]
  /\ seen' = [seen EXCEPT ![p] = Append(@, q[p][1])]
  /\ q' = [q EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<b, base, n, chk>>
Acknowledge(p) ==
  /\ seen[p] # <<>>
  /\ base' = [base EXCEPT ![p] = seen[p][1].rev]
  /\ seen' = [seen EXCEPT ![p] = Tail(@)]
  /\ b' = Acked(b, p, 1)
  /\ UNCHANGED <<mir, q, n, chk>>

Next ==
  \/ \E k \in {0, Len(Now(b))} : Command(Ins(b, Up, k, <<120>>))
  \/ Len(Now(b)) > 0 /\ Command(Bs(b, Up, Len(Now(b))))
  \/ Command(Undo(b, Up)) \/ Command(Redo(b, Up))
  \/ \E p \in 1..Plugins : PEdit(p) \/ Deliver(p) \/ Acknowledge(p)
Spec == Init /\ [][Next]_vars

(* revisions a plugin may still name are there, and are what they were *)
Promised ==
  \A p \in 1..Plugins :
    /\ (q[p] # <<>> \/ seen[p] # <<>>) => base[p] >= b.d.floor
    /\ \A k \in 1..Len(seen[p]) : seen[p][k].rev >= b.d.floor /\ Text(b.d, seen[p][k].rev) = seen[p][k].txt
    /\ \A k \in 1..Len(q[p]) : q[p][k].rev >= b.d.floor /\ Text(b.d, q[p][k].rev) = q[p][k].txt
Mirrors == \A p \in 1..Plugins :
  mir[p] = IF seen[p] # <<>> THEN Text(b.d, seen[p][Len(seen[p])].rev)
           ELSE IF q[p] # <<>> THEN Text(b.d, base[p]) ELSE Now(b)
Counted == \A p \in 1..Plugins : b.pend[p] = Len(q[p]) + Len(seen[p])
Groups == b.cur \in 1..Len(b.live) /\ Len(b.live) <= MaxUndos /\ b.und \cap Ids(SubSeq(b.live, 1, b.cur)) = {}
Right == chk
=============================================================================

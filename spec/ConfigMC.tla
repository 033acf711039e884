------------------------------ MODULE ConfigMC ------------------------------
(* The design of the settings: layers, one table computed per buffer and kept,   *)
(* and the differences announced to the front-end, whose own copy must be the     *)
(* table in effect.  A view is set up some time after it is opened.               *)
(*   Nulls    a key that is no longer set anywhere is announced                   *)
(*   Fresh    a view that is set up is told the table of that moment              *)
(* The front-end's copy is wrong when either is missing (as found).               *)
EXTENDS Core

CONSTANTS Nulls, Fresh, MaxSteps
VARIABLES gen, luser, b, n
vars == <<gen, luser, b, n>>

Bufs == {1, 2}
Keys == {"tab_size", "custom"}
Changes == {<<[k |-> k, v |-> v, ty |-> "pos"]>> : k \in Keys, v \in {"1", "2", "null"}}
           \cup {<<[k |-> "tab_size", v |-> "0", ty |-> "zero"], [k |-> "custom", v |-> "1", ty |-> "pos"]>>}
LDef == [custom |-> "9"]
State == [gen |-> gen, luser |-> [l \in {"Rust"} |-> luser], ldef |-> [l \in {"Rust"} |-> LDef]]
View(x) == [det |-> x.det, usr |-> x.usr, uo |-> x.uo]
Table1(x) == Eff(State, View(x), x.sys)
Only(t) == [k \in Keys \cap DOMAIN t |-> t[k]]

Fresh0 == [open |-> FALSE, up |-> FALSE, det |-> "", usr |-> "", uo |-> Empty, sys |-> Empty, kept |-> Empty, first |-> Empty, mir |-> Empty]
Init == gen = Empty /\ luser = Empty /\ b = [k \in Bufs |-> Fresh0] /\ n = 0

(* the table is computed again and the difference to the one kept is announced *)
Diff(old, new) == [k \in {x \in DOMAIN new : x \notin DOMAIN old \/ old[x] # new[x]} |-> new[k]]
Gone(old, new) == (DOMAIN old) \ (DOMAIN new)
Told(m, old, new) == LET o == Over2(Diff(old, new), m) IN
                     [k \in (DOMAIN o) \ (IF Nulls THEN Gone(old, new) ELSE {}) |-> o[k]]
Again(g, l, x) ==
  IF ~x.open THEN x
  ELSE LET t == Eff([gen |-> g, luser |-> [y \in {"Rust"} |-> l], ldef |-> [y \in {"Rust"} |-> LDef]], View(x), x.sys) IN
       [x EXCEPT !.kept = t, !.mir = IF x.up THEN Told(@, x.kept, t) ELSE @]
All(g, l, bb) == [k \in Bufs |-> Again(g, l, bb[k])]

General == \E ch \in Changes : Valid(ch) /\ gen' = With(gen, ch) /\ b' = All(gen', luser, b) /\ UNCHANGED luser
Language == \E ch \in Changes : Valid(ch) /\ luser' = With(luser, ch) /\ b' = All(gen, luser', b) /\ UNCHANGED gen
Own(k) == b[k].open /\ \E ch \in Changes : Valid(ch) /\ b' = [b EXCEPT ![k] = Again(gen, luser, [@ EXCEPT !.uo = With(@, ch)])] /\ UNCHANGED <<gen, luser>>
OpenV(k) == /\ ~b[k].open
           /\ \E l \in {"Rust", "C"} :
                LET x == [Fresh0 EXCEPT !.open = TRUE, !.det = l] t == Eff(State, View(x), Empty) IN
                b' = [b EXCEPT ![k] = [x EXCEPT !.kept = t, !.first = t]]
           /\ UNCHANGED <<gen, luser>>
SetUpV(k) == /\ b[k].open /\ ~b[k].up
             /\ \E d \in {Empty, [tab_size |-> "3"]} :        \* what is detected in the text
                  LET x == [b[k] EXCEPT !.sys = d] t == Table1(x) IN
                  b' = [b EXCEPT ![k] = [x EXCEPT !.up = TRUE, !.kept = t,
                                           !.mir = IF Fresh THEN t ELSE Over2(d, x.first)]]
             /\ UNCHANGED <<gen, luser>>
Choose(k) == /\ b[k].open /\ \E l \in {"Rust", "C"} : b' = [b EXCEPT ![k] = Again(gen, luser, [@ EXCEPT !.usr = l])]
             /\ UNCHANGED <<gen, luser>>
Path(k) == /\ b[k].open /\ \E l \in {"Rust", "C"} : b' = [b EXCEPT ![k] = Again(gen, luser, [@ EXCEPT !.det = l])]
           /\ UNCHANGED <<gen, luser>>
Next == n < MaxSteps /\ n' = n + 1 /\ (General \/ Language \/ \E k \in Bufs : Own(k) \/ OpenV(k) \/ SetUpV(k) \/ Choose(k) \/ Path(k))
Spec == Init /\ [][Next]_vars

Faithful == \A k \in Bufs : b[k].up => b[k].mir = Table1(b[k])
(* key by key, the most specific layer that sets it *)
Layers(x) == <<x.uo, x.sys>> \o (IF Lang(View(x)) = "Rust" THEN <<luser, LDef>> ELSE <<>>) \o <<gen, Base>>
Precedence == \A k \in Bufs : b[k].open =>
  \A key \in Keys :
    LET ls == Layers(b[k])
        on == {j \in 1..Len(ls) : key \in DOMAIN ls[j]}
    IN IF on = {} THEN key \notin DOMAIN b[k].kept
       ELSE b[k].kept[key] = ls[CHOOSE j \in on : \A i \in on : j <= i][key]
=============================================================================

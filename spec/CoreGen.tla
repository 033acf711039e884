------------------------------- MODULE CoreGen -------------------------------
(* Scripts for the driver of the whole core: every sequence of MaxLen commands   *)
(* of one area.                                                                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Area, MaxLen, Starts
VARIABLES cmds, start
vars == <<cmds, start>>

X == <<120>>
NL == <<10>>
Two == <<32, 32, 97, 10>>
File(p, x, bom) == [c |-> "ext", p |-> p, how |-> "write", x |-> x, bom |-> bom, bad |-> FALSE]
Open(p) == [c |-> "open", p |-> p]
Close(v) == [c |-> "close", v |-> v]
Edit(v, x) == [c |-> "edit", v |-> v, x |-> x]
Save(v, p) == [c |-> "save", v |-> v, p |-> p]
Fail(v, p, k, h) == [c |-> "save", v |-> v, p |-> p, fault |-> [at |-> k, how |-> "fail", half |-> h]]
Crash(v, p, k) == [c |-> "save", v |-> v, p |-> p, fault |-> [at |-> k, how |-> "crash", half |-> TRUE]]
Race(v, p, k) == [c |-> "save", v |-> v, p |-> p, fault |-> [at |-> k, how |-> "race", x |-> <<119, 10>>, bom |-> FALSE]]
ORace(p, k) == [c |-> "open", p |-> p, fault |-> [at |-> k, how |-> "race", x |-> <<119, 10>>, bom |-> FALSE]]
Del(p) == [c |-> "ext", p |-> p, how |-> "delete"]
Chmod(p) == [c |-> "ext", p |-> p, how |-> "mode", m |-> 384]
Wait == [c |-> "wait"]
Batch(cs) == [c |-> "batch", cs |-> cs]
Ask(v, m) == [c |-> "ask", v |-> v, m |-> m]
Lang(v, l) == [c |-> "lang", v |-> v, l |-> l]
Ch(k, v, ty) == [k |-> k, v |-> v, ty |-> ty]
Conf(dom, l, v, ch) == [c |-> "config", dom |-> dom, l |-> l, v |-> v, ch |-> ch]

SaveCmds ==
  {Edit(1, X), Edit(2, X), Save(1, "a.txt"), Save(2, "a.txt"), Save(1, "b.rs"), Open("a.txt"), Open("b.rs"), Close(1),
   File("a.txt", <<102, 10>>, FALSE), File("a.txt", <<103, 10>>, TRUE), Del("a.txt"), Chmod("a.txt"),
   ORace("a.txt", 1), ORace("a.txt", 2)}
  \cup {Fail(1, "a.txt", k, FALSE) : k \in 1..5} \cup {Fail(1, "a.txt", 2, TRUE)} \cup {Crash(1, "a.txt", 2), Crash(1, "a.txt", 3)}
  \cup {Race(1, "a.txt", k) : k \in 1..8}
CfgCmds ==
  {Open("b.rs"), Open("a.txt"), Save(1, "b.rs"), Save(1, "a.txt"), Save(1, "m"), Lang(1, "Rust"), Lang(1, "C"), Lang(2, "Rust"),
   Conf("general", "", 0, <<Ch("tab_size", "5", "pos"), Ch("font_size", "8", "pos")>>),
   Conf("general", "", 0, <<Ch("tab_size", "null", "null")>>),
   Conf("lang", "Rust", 0, <<Ch("tab_size", "6", "pos"), Ch("custom", "1", "pos")>>),
   Conf("lang", "Rust", 0, <<Ch("tab_size", "null", "null"), Ch("font_size", "7", "pos")>>),
   Conf("view", "", 1, <<Ch("tab_size", "7", "pos")>>),
   Conf("view", "", 1, <<Ch("tab_size", "null", "null"), Ch("autodetect_whitespace", "false", "bool")>>),
   Conf("view", "", 1, <<Ch("font_size", "7", "pos"), Ch("tab_size", "0", "zero")>>),
   Conf("general", "", 0, <<Ch("font_size", "7", "pos"), Ch("word_wrap", "2", "pos")>>)}
LifeCmds ==
  {Open(""), Open("b.rs"), Open("dir"), Close(1), Close(2), Edit(1, X), Edit(2, NL), Ask(1, "cut"), Ask(2, "copy"), Save(1, "a.txt"), Save(2, "m"),
   Lang(1, "Rust"), Conf("view", "", 2, <<Ch("tab_size", "7", "pos")>>), Conf("general", "", 0, <<Ch("tab_size", "5", "pos")>>),
   Batch(<<Open(""), Close(1)>>), Batch(<<Open(""), Edit(1, X), Close(2)>>), Batch(<<Close(1), Open(""), Edit(2, X)>>),
   Batch(<<Open(""), Conf("view", "", 2, <<Ch("tab_size", "3", "pos")>>), Lang(2, "Rust"), Open("")>>)}
Alphabet == CASE Area = "save" -> SaveCmds [] Area = "cfg" -> CfgCmds [] OTHER -> LifeCmds

Faulty(c) == "fault" \in DOMAIN c
Writes(c) == c.c \in {"save", "open"} \/ (c.c = "ext" /\ c.how = "write")
Opened == Len(SelectSeq(cmds, LAMBDA c : c.c = "open" \/ (c.c = "batch" /\ \E k \in DOMAIN c.cs : c.cs[k].c = "open"))) + 1
(* scripts that say nothing a shorter one does not are left out *)
Useful(c) ==
  /\ Area = "save" =>
       /\ Faulty(c) => \A k \in 1..Len(cmds) : ~Faulty(cmds[k])
       /\ (c.c = "edit" /\ Len(cmds) > 0) => cmds[Len(cmds)] # c
  /\ "v" \in DOMAIN c /\ c.c # "ask" => c.v <= Opened
  /\ Len(cmds) = MaxLen - 1 /\ Area = "save" => c.c \in {"save", "open"}

Begins == {[setup |-> k, first |-> f] : k \in Starts, f \in (IF Area = "cfg" THEN {"b.rs", ""} ELSE IF Area = "save" THEN {"a.txt", "none", "bom"} ELSE {"", "a.txt"})}
FilesOf(b) ==
  CASE Area = "cfg" -> <<File("b.rs", Two, FALSE)>>
    [] Area = "save" /\ b.first = "a.txt" -> <<File("a.txt", <<97, 10>>, FALSE)>>
    [] Area = "save" /\ b.first = "bom" -> <<File("a.txt", <<97, 10>>, TRUE), File("a.txt.swp", <<115>>, FALSE)>>
    [] Area = "life" -> <<File("b.rs", Two, FALSE), [c |-> "ext", p |-> "dir", how |-> "mkdir"]>>
    [] OTHER -> <<>>
OpenOf(b) == IF Area = "save" THEN Open("a.txt") ELSE Open(b.first)
Script == [setup |-> start.setup, files |-> FilesOf(start), cmds |-> <<OpenOf(start)>> \o cmds]

Init == cmds = <<>> /\ start \in Begins
Next ==
  \/ /\ Len(cmds) < MaxLen
     /\ \E c \in Alphabet : Useful(c) /\ cmds' = Append(cmds, c)
     /\ UNCHANGED start
     /\ IF Len(cmds') = MaxLen THEN PrintT("SCRIPT " \o ToJson([Script EXCEPT !.cmds = <<OpenOf(start)>> \o cmds'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================

-------------------------------- MODULE Core --------------------------------
(* The whole core as front-ends and other programs see it: views with their     *)
(* buffers, files on disk that others also write, and the layers of settings.   *)
(* What the core does with a file on its own (looking at it, loading it again)  *)
(* may happen at any time, so the specification keeps for every view the set    *)
(* `poss` of the states its buffer may be in:                                    *)
(*   t, clean      text, and whether it is what was last loaded or written       *)
(*   ver, bom, mode    the version of the file that was last read or written     *)
(*                 (0: there was none, -1: one that is gone), its encoding, mode *)
(*   flag          the core has noticed another version since                    *)
(*   sys           settings detected from the text                               *)
(*   pend          the view is not set up yet                                    *)
(* A view: id, open, path, det, usr (languages: detected, chosen or ""), uo (the *)
(* user's overrides), wild (any message at all was sent to it), mir, lmir (the   *)
(* settings and the language its front-end was told), poss.                      *)
EXTENDS VUtil

Empty == [x \in {} |-> 0]
Base == [tab_size |-> "4", translate_tabs_to_spaces |-> "true", use_tab_stops |-> "true", plugin_search_path |-> "[]",
         font_face |-> "\"InconsolataGo\"", font_size |-> "14", line_ending |-> "\"\\n\"", auto_indent |-> "true",
         scroll_past_end |-> "false", wrap_width |-> "0", word_wrap |-> "false", autodetect_whitespace |-> "true",
         surrounding_pairs |-> "[[\"\\\"\",\"\\\"\"],[\"'\",\"'\"],[\"{\",\"}\"],[\"[\",\"]\"]]", save_with_newline |-> "true"]
Langs == {"Plain Text", "Rust", "C"}
Default == "Plain Text"
LangOf(p) == CASE p \in {"a.txt", "none/x.txt"} -> "Plain Text" [] p = "b.rs" -> "Rust" [] p = "d.c" -> "C" [] OTHER -> Default

(* ---- files ---- *)
NoFile == [kind |-> "none", bom |-> FALSE, ok |-> TRUE, t |-> <<>>, ver |-> 0, mode |-> 0]
Disk(fs) == [p \in {fs[k].p : k \in 1..Len(fs)} |->
               LET k == CHOOSE k \in 1..Len(fs) : fs[k].p = p IN
               [kind |-> fs[k].kind, bom |-> fs[k].bom, ok |-> fs[k].ok, t |-> fs[k].t, ver |-> fs[k].ver, mode |-> fs[k].mode]]
At(D, p) == IF p \in DOMAIN D THEN D[p] ELSE NoFile

(* ---- settings: tables from keys to values; "?" stands for one that is not determined ---- *)
Table(ch) == [k \in {ch[j].k : j \in 1..Len(ch)} |-> ch[CHOOSE j \in 1..Len(ch) : ch[j].k = k].v]
With(tab, ch) ==
  LET c == Table(ch) IN
  [k \in ((DOMAIN tab) \cup {x \in DOMAIN c : c[x] # "null"}) \ {x \in DOMAIN c : c[x] = "null"} |->
     IF k \in DOMAIN c THEN c[k] ELSE tab[k]]
Over2(a, b) == [k \in (DOMAIN a) \cup (DOMAIN b) |-> IF k \in DOMAIN a THEN a[k] ELSE b[k]]
FitsKey(k, ty) ==
  CASE ty = "null" -> TRUE
    [] k = "tab_size" -> ty = "pos"
    [] k = "wrap_width" -> ty \in {"pos", "zero"}
    [] k = "font_size" -> ty \in {"pos", "zero", "neg", "float"}
    [] k \in {"font_face", "line_ending"} -> ty = "str"
    [] k = "surrounding_pairs" -> ty = "pairs"
    [] k \in {"translate_tabs_to_spaces", "use_tab_stops", "auto_indent", "scroll_past_end", "word_wrap",
              "autodetect_whitespace", "save_with_newline"} -> ty = "bool"
    [] OTHER -> TRUE
Valid(ch) == \A j \in 1..Len(ch) : FitsKey(ch[j].k, ch[j].ty)

Lang(v) == IF v.usr = "" THEN v.det ELSE v.usr
LayerOf(f, l) == IF l \in DOMAIN f THEN f[l] ELSE Empty
Eff(s, v, sys) ==
  LET l == Lang(v)
      lang == IF l \in Langs THEN Over2(LayerOf(s.luser, l), LayerOf(s.ldef, l)) ELSE Empty
  IN Over2(v.uo, Over2(sys, Over2(lang, Over2(s.gen, Base))))
Agrees(cfg, eff) == /\ DOMAIN cfg \subseteq DOMAIN eff
                    /\ \A k \in DOMAIN eff : eff[k] = "?" \/ (k \in DOMAIN cfg /\ cfg[k] = eff[k])

(* ---- what is detected in a text ---- *)
LF == 10
CR == 13
RECURSIVE Indent(_, _, _)
Indent(t, k, n) ==          \* of the line that begins at k: <<"none">>, <<"tab">>, <<"mixed">> or <<"sp", n>>
  IF k > Len(t) THEN IF n = 0 THEN <<"none", 0>> ELSE <<"sp", n>>
  ELSE IF t[k] = 32 THEN Indent(t, k + 1, n + 1)
  ELSE IF t[k] = 9 THEN IF n = 0 THEN <<"tab", 0>> ELSE <<"mixed", 0>>
  ELSE IF n = 0 THEN <<"none", 0>> ELSE <<"sp", n>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_)
GcdAll(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Gcd(x, GcdAll(S \ {x}))
DetectIndent(t) ==
  LET ls == {k \in 1..Len(t) : k = 1 \/ t[k - 1] = LF}
      ind == {Indent(t, k, 0) : k \in ls}
      sp == {x[2] : x \in {y \in ind : y[1] = "sp"}}
      tab == <<"tab", 0>> \in ind
      g == GcdAll(sp)
  IN CASE <<"mixed", 0>> \in ind -> Empty
       [] tab /\ sp # {} -> Empty
       [] tab -> [translate_tabs_to_spaces |-> "false"]
       [] sp = {} -> Empty
       [] g > 1 /\ Cardinality(sp) <= 4 -> [translate_tabs_to_spaces |-> "true", tab_size |-> ToString(g)]
       [] OTHER -> [translate_tabs_to_spaces |-> "?", tab_size |-> "?"]
DetectEnding(t) ==
  LET nl == {k \in 1..Len(t) : t[k] = LF}
      crlf == {k \in nl : k > 1 /\ t[k - 1] = CR}
      cr == {k \in 1..Len(t) : t[k] = CR}
  IN CASE nl = {} /\ cr = {} -> Empty
       [] cr = {} -> [line_ending |-> "\"\\n\""]
       [] crlf = nl /\ Cardinality(cr) = Cardinality(crlf) -> [line_ending |-> "\"\\r\\n\""]
       [] OTHER -> [line_ending |-> "?"]
Detect(t) == Over2(DetectIndent(t), DetectEnding(t))
SetUp(s, v, st) ==
  IF ~st.pend THEN st
  ELSE IF st.t = <<>> THEN [st EXCEPT !.pend = FALSE]
  ELSE LET a == Eff(s, v, st.sys)["autodetect_whitespace"] IN
       IF a = "true" THEN [st EXCEPT !.pend = FALSE, !.sys = Detect(st.t)] ELSE [st EXCEPT !.pend = FALSE]

(* ---- what the core may do on its own: look at the file (D: what is there), load it again, set the view up ---- *)
Looks(st, D) ==
  {st} \cup
  (IF D.ver = st.ver /\ ~st.flag THEN {}
   ELSE {[st EXCEPT !.flag = @ \/ D.ver # st.ver]}
        \cup (IF ~st.clean \/ D.kind = "dir" \/ ~D.ok THEN {}
              ELSE IF D.kind = "none" THEN {[st EXCEPT !.t = <<>>, !.flag = TRUE], [st EXCEPT !.t = <<>>, !.flag = FALSE, !.ver = 0]}
              ELSE {[st EXCEPT !.t = D.t, !.ver = D.ver, !.bom = D.bom, !.mode = D.mode, !.flag = FALSE]}))
Alone(s, v, D) ==
  LET f == At(D, v.path)
      a == IF v.path = "" THEN v.poss ELSE UNION {Looks(st, f) : st \in v.poss}
  IN [v EXCEPT !.poss = a \cup {SetUp(s, v, st) : st \in a}]
AllAlone(s, D) == [s EXCEPT !.views = [k \in 1..Len(@) |-> IF @[k].open THEN Alone(s, @[k], D) ELSE @[k]]]

(* ---- saving ---- *)
Endings(eff, wild) == IF wild THEN {}
                      ELSE CASE eff["line_ending"] = "\"\\n\"" -> {<<LF>>}
                             [] eff["line_ending"] = "\"\\r\\n\"" -> {<<CR, LF>>}
                             [] eff["line_ending"] = "?" -> {<<LF>>, <<CR, LF>>}
                             [] OTHER -> {<<120>>}
SavedTexts(t, eff, wild) ==
  IF t = <<>> \/ eff["save_with_newline"] # "true" THEN {t}
  ELSE {IF IsSuffix(e, t) THEN t ELSE t \o e : e \in Endings(eff, wild)}
(* may `new` (what is at the path afterwards) be what saving st wrote? *)
Written(s, v, st, new) ==
  /\ new.kind = "file" /\ new.ok
  /\ new.bom = st.bom
  /\ IF v.wild THEN IsPrefix(st.t, new.t) /\ Len(new.t) <= Len(st.t) + 2
     ELSE new.t \in SavedTexts(st.t, Eff(s, v, st.sys), FALSE)
SameFile(a, b) == a.kind = b.kind /\ a.bom = b.bom /\ a.ok = b.ok /\ a.t = b.t

(* the states after a save of st to p that went well, given the file before and after;           *)
(* gone: another program has replaced the file since it was written                               *)
After(st, new, gone, fault) ==
  {[st EXCEPT !.ver = IF gone THEN 0 - 1 ELSE new.ver, !.mode = m, !.flag = FALSE, !.clean = TRUE] :
     m \in (IF gone THEN {st.mode} ELSE {new.mode}) \cup (IF fault.hit THEN {st.mode} ELSE {})}
SaveOk(s, v, st, p, old, new, alerts, fault) ==
  LET own == p = v.path
      raced == fault.hit /\ "how" \in DOMAIN fault /\ fault.how = "race"
      unseen == own /\ old.kind = "file" /\ old.ver # st.ver       \* somebody else's version
  IN IF unseen \/ alerts > 0 \/ old.kind = "dir" THEN {}
     ELSE IF raced /\ fault.renamed THEN IF new.ver # old.ver THEN After(st, new, TRUE, fault) ELSE {}
     ELSE IF Written(s, v, st, new) /\ (own /\ old.kind = "file" /\ ~fault.hit => new.mode \in {st.mode, old.mode})
          THEN After(st, new, FALSE, fault)
     ELSE {}
SaveRefused(s, v, st, p, old, new, alerts, fault) ==
  LET own == p = v.path
      raced == fault.hit /\ "how" \in DOMAIN fault /\ fault.how = "race"
      why == \/ own /\ (old.ver # st.ver \/ st.flag)
             \/ old.kind = "dir" \/ p = "none/x.txt"
             \/ fault.hit
  IN IF ~why \/ alerts = 0 THEN {}
     ELSE IF SameFile(old, new) \/ (raced /\ ~fault.renamed) THEN {[st EXCEPT !.flag = @ \/ own]} ELSE {}

(* ---- commands; ev: what was observed ---- *)
NewSt(t, ver, bom, mode) == [t |-> t, clean |-> TRUE, ver |-> ver, bom |-> bom, mode |-> mode, flag |-> FALSE, sys |-> Empty, pend |-> TRUE]
NewView(id, p, sts) == [id |-> id, open |-> TRUE, path |-> p, det |-> IF p = "" THEN Default ELSE LangOf(p), usr |-> "", uo |-> Empty,
                        wild |-> FALSE, mir |-> Empty, lmir |-> "", poss |-> sts]
Dead == [id |-> "", open |-> FALSE, path |-> "", det |-> "", usr |-> "", uo |-> Empty, wild |-> FALSE, mir |-> Empty, lmir |-> "", poss |-> {}]
Loaded(f) == IF f.kind = "none" THEN {NewSt(<<>>, 0, FALSE, 0)}
             ELSE IF f.kind = "dir" \/ ~f.ok THEN {} ELSE {NewSt(f.t, f.ver, f.bom, f.mode)}

Bad(tags, why) == {<<x, why>> : x \in tags}
Res(s, bad) == [s |-> s, bad |-> bad]
Open(s, c, ev, id) ==
  LET before == At(s.disk, c.p)
      sts == IF c.p = "" THEN {NewSt(<<>>, 0, FALSE, 0)} ELSE Loaded(before) \cup Loaded(At(Disk(ev.files), c.p))
      fails == c.p # "" /\ (before.kind = "dir" \/ ~before.ok \/ At(Disk(ev.files), c.p).kind = "dir" \/ ~At(Disk(ev.files), c.p).ok)
  IN IF id = "" THEN Res([s EXCEPT !.views = Append(@, Dead)], IF fails THEN {} ELSE Bad({"L01", "S01"}, "open"))
     ELSE Res([s EXCEPT !.views = Append(@, NewView(id, c.p, sts)), !.ids = @ \cup {id}],
              (IF id \in s.ids THEN Bad({"L01"}, "id") ELSE {}) \cup (IF sts = {} THEN Bad({"L01", "S01"}, "open") ELSE {}))
Is(s, v) == v >= 1 /\ v <= Len(s.views) /\ s.views[v].open
Edit(s, v, x) == [s EXCEPT !.views[v].poss = {[st EXCEPT !.t = @ \o x, !.clean = FALSE] : st \in @}]
Config(s, c, ev) ==
  IF c.dom = "view" /\ ~Is(s, c.v) THEN Res(s, {})
  ELSE IF ~Valid(c.ch) THEN Res([s EXCEPT !.refused = @ + 1], {})
  ELSE CASE c.dom = "general" -> Res([s EXCEPT !.gen = With(@, c.ch)], {})
         [] c.dom = "lang" -> Res([s EXCEPT !.luser = [l \in (DOMAIN @) \cup {c.l} |-> IF l = c.l THEN With(LayerOf(s.luser, l), c.ch) ELSE @[l]]], {})
         [] OTHER -> Res([s EXCEPT !.views[c.v].uo = With(@, c.ch)], {})
Save(s, c, ev) ==
  IF ~Is(s, c.v) THEN Res(s, {})
  ELSE LET v == s.views[c.v]
           fl == IF "fault" \in DOMAIN c THEN ev.fault @@ [how |-> c.fault.how] ELSE ev.fault
           crash == fl.hit /\ "how" \in DOMAIN fl /\ fl.how = "crash"
           old == At(s.disk, c.p)
           new == At(Disk(ev.files), c.p)
           ok == UNION {SaveOk(s, v, st, c.p, old, new, ev.alerts, fl) : st \in v.poss}
           no == UNION {SaveRefused(s, v, st, c.p, old, new, ev.alerts, fl) : st \in v.poss}
           part == IF crash THEN UNION {SaveOk(s, v, st, c.p, old, new, 0, [fl EXCEPT !.hit = FALSE]) : st \in v.poss} ELSE {}
       IN IF ok \cup no \cup part = {} THEN Res(s, Bad({"S01"}, "save"))
          ELSE IF ok # {} THEN Res([s EXCEPT !.views[c.v] = [v EXCEPT !.poss = ok, !.path = c.p, !.det = LangOf(c.p)]], {})
          ELSE Res([s EXCEPT !.views[c.v].poss = no \cup part, !.refused = @ + 1], {})
Anything(s, v, ev, wild) == [s EXCEPT !.views[v].poss = {[st EXCEPT !.t = ev.views[v].text, !.clean = b] : st \in @, b \in BOOLEAN},
                                      !.views[v].wild = @ \/ wild]
Apply(s, c, ev, id) ==
  CASE c.c = "open" -> Open(s, c, ev, id)
    [] c.c = "close" -> Res(IF Is(s, c.v) THEN [s EXCEPT !.views[c.v].open = FALSE, !.views[c.v].poss = {}] ELSE s, {})
    [] c.c = "edit" -> Res(IF Is(s, c.v) THEN Edit(s, c.v, c.x) ELSE s, {})
    [] c.c = "config" -> Config(s, c, ev)
    [] c.c = "lang" -> Res(IF Is(s, c.v) THEN [s EXCEPT !.views[c.v].usr = c.l] ELSE s, {})
    [] c.c = "save" -> Save(s, c, ev)
    [] c.c = "fuzz" \/ (c.c = "ask" /\ c.m = "cut") ->
         Res(IF Is(s, c.v) THEN Anything(s, c.v, ev, c.c = "fuzz") ELSE s, {})
    [] c.c = "ext" /\ c.how = "inplace" ->         \* the core may look while the other program is writing
         LET f == At(Disk(ev.files), c.p)
             half(st) == {[st EXCEPT !.t = x, !.ver = 0 - 1, !.bom = f.bom /\ x # <<>>, !.flag = FALSE] : x \in {<<>>} \cup (IF f.ok THEN {f.t} ELSE {})}
         IN Res([s EXCEPT !.views = [k \in 1..Len(@) |->
                   IF @[k].open /\ @[k].path = c.p
                   THEN [@[k] EXCEPT !.poss = @ \cup UNION {half(st) : st \in {y \in @ : y.clean}}] ELSE @[k]]], {})
    [] OTHER -> Res(s, {})
(* the messages of a batch, one after the other; views opened in it have the identifiers the driver expected *)
RECURSIVE Batch(_, _, _, _)
Batch(r, cs, k, ev) ==
  IF k > Len(cs) THEN
    LET f[n \in 0..Len(r.s.views)] ==          \* those that any message was sent to may have any text
          IF n = 0 THEN r.s
          ELSE IF Is(r.s, n) /\ \E j \in 1..Len(cs) : cs[j].c = "fuzz" /\ cs[j].v = n THEN Anything(f[n - 1], n, ev, TRUE) ELSE f[n - 1]
    IN Res(f[Len(r.s.views)], r.bad)
  ELSE LET a == Apply(r.s, cs[k], ev, IF cs[k].c = "open" THEN ev.views[Len(r.s.views) + 1].id ELSE "") IN
       Batch(Res(AllAlone(a.s, r.s.disk), r.bad \cup a.bad), cs, k + 1, ev)

(* ---- what was observed of every view ---- *)
Mirror(m, ann) ==
  LET f[k \in 0..Len(ann)] == IF k = 0 THEN m
        ELSE LET o == Over2(ann[k], f[k - 1]) IN [x \in {y \in DOMAIN o : o[y] # "null"} |-> o[x]]
  IN f[Len(ann)]
Said(ann) == UNION {DOMAIN ann[k] : k \in 1..Len(ann)}
Changed(a, b) == {k \in (DOMAIN a) \cup (DOMAIN b) :
                    /\ ~(k \in DOMAIN a /\ a[k] = "?") /\ ~(k \in DOMAIN b /\ b[k] = "?")
                    /\ ~(k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k])}
Unsure(a, b) == {k \in (DOMAIN a) \cup (DOMAIN b) : (k \in DOMAIN a /\ a[k] = "?") \/ (k \in DOMAIN b /\ b[k] = "?")}
(* s: after the command, s0: before it; k: the view; single: one command, whose announcements are known exactly *)
See(s0, s, k, o, single) ==           \* <<view, tags>>
  LET v == s.views[k]
      A == {st \in v.poss : st.t = o.text /\ ~st.pend}
      B == IF v.wild THEN A ELSE {st \in A : Agrees(o.cfg, Eff(s, v, st.sys))}
      npri == Len(o.pri)
      C == IF npri = 0 THEN B ELSE {st \in B : st.clean = o.pri[npri]}
      m == Mirror(v.mir, o.ann)
      st == CHOOSE x \in C : TRUE
      fresh == k > Len(s0.views)
      pre == Eff(s0, s0.views[k], (CHOOSE x \in s0.views[k].poss : TRUE).sys)
      post == Eff(s, v, st.sys)
      exact == v.wild \/ ~single \/ fresh \/
               /\ Changed(pre, post) \subseteq Said(o.ann)
               /\ Said(o.ann) \subseteq Changed(pre, post) \cup Unsure(pre, post)
      l == IF Len(o.lang) = 0 THEN v.lmir ELSE o.lang[Len(o.lang)]
      w == [v EXCEPT !.poss = C, !.mir = m, !.lmir = l]
  IN IF ~v.open THEN <<v, IF o.open THEN Bad({"L01"}, "closed") ELSE {}>>
     ELSE IF ~o.open THEN <<v, Bad({"L01"}, "lost")>>
     ELSE IF A = {} THEN <<v, Bad({"S01", "L01"}, "text")>>
     ELSE IF B = {} THEN <<v, Bad({"K01"}, "settings")>>
     ELSE IF C = {} THEN <<v, Bad({"S01"}, "pristine")>>
     ELSE <<w, (IF m # o.cfg /\ ~v.wild THEN Bad({"K01"}, "mirror") ELSE {}) \cup (IF exact THEN {} ELSE Bad({"K01"}, "announced"))
               \cup (IF l # Lang(v) /\ ~v.wild THEN Bad({"K01"}, "language") ELSE {})>>

(* files nobody asked to change; new ones only after something went wrong *)
OthersKept(old, new, c, alerts, fault) ==
  LET mine == IF c.c \in {"save", "ext"} THEN {c.p} ELSE IF c.c = "open" /\ "fault" \in DOMAIN c THEN {c.p} ELSE {} IN
  /\ \A p \in (DOMAIN old) \ mine : p \in DOMAIN new /\ (c.c = "fuzz" \/ old[p] = new[p])
  /\ \A p \in (DOMAIN new) \ mine : p \in DOMAIN old \/ (c.c = "save" /\ fault.hit)

Step(s, ev) ==              \* <<state, tags>>
  LET c == ev.cmd
      D == Disk(ev.files)
      s1 == AllAlone([s EXCEPT !.refused = 0], s.disk)
      r == IF c.c = "batch" THEN Batch(Res(s1, {}), c.cs, 1, ev)
           ELSE Apply(s1, c, ev, IF c.c = "open" /\ ev.resp # <<>> THEN ev.resp[1] ELSE "")
      s2 == AllAlone([r.s EXCEPT !.disk = D], D)
      sees == [k \in 1..Len(s2.views) |-> See(s, s2, k, ev.views[k], c.c # "batch")]
      badresp == c.c = "ask" /\ ev.resp # <<IF Is(s, c.v) THEN "ok" ELSE "error">>
      badalert == c.c \notin {"fuzz", "save"} /\ ev.alerts # s2.refused
      badsaves == c.c = "save" /\ (ev.alerts > 0) # (s2.refused > 0)
  IN <<[s2 EXCEPT !.views = [k \in 1..Len(@) |-> sees[k][1]]],
       r.bad \cup UNION {sees[k][2] : k \in 1..Len(sees)}
       \cup (IF OthersKept(s.disk, D, c, ev.alerts, ev.fault) THEN {} ELSE Bad({"S01", "L01"}, "files"))
       \cup (IF badresp THEN Bad({"L01"}, "resp") ELSE {}) \cup (IF badalert THEN Bad({"K01"}, "alerts") ELSE {}) \cup (IF badsaves THEN Bad({"S01"}, "alert") ELSE {})>>

Begin(ev) ==
  [views |-> <<>>, disk |-> Disk(ev.files), gen |-> Table(ev.gen), luser |-> [l \in {"Rust"} |-> Table(ev.rust)],
   ldef |-> [l \in {"Rust"} |-> Table(ev.rustdef)], ids |-> {}, refused |-> 0]
=============================================================================

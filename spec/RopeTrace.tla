----------------------------- MODULE RopeTrace -----------------------------
(* Decides whether recorded runs of the real rope are sequences of characters. *)
(* State: a few registers holding texts, and one cursor into one of them.      *)
EXTENDS Rope, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, s, skip
vars == <<i, s, skip>>

Res(ok, st, want) == [ok |-> ok, st |-> st, want |-> want]
Set(st, d, t) == [st EXCEPT !.r[d] = t]

(* what a rope shows of itself: contents (read as a whole and chunk by chunk), and its measures *)
Shows(ev, t) == /\ ev.txt = t /\ ev.chunks = t
                /\ ev.len = TLen(t) /\ ev.nl = Newlines(t) /\ ev.u16 = Utf16(t)
Made(st, ev, t) == Res(Shows(ev, t), Set(st, ev.d, t), t)

IvOk(t, a, b) == a <= b /\ b <= TLen(t) /\ Bound(t, a) /\ Bound(t, b)

OnCursor(st, ev) ==
  LET t == st.ct
      ok == st.cok
      o == st.co
      r == CASE ev.op = "cset"  -> [pos |-> ev.o, ok |-> TRUE, want |-> ev.o]
             [] ev.op = "cnext" -> LET n == IF ok THEN MNext(ev.m, t, o) ELSE NONE IN [pos |-> n, ok |-> n # NONE, want |-> n]
             [] ev.op = "cprev" -> LET n == IF ok THEN MPrev(ev.m, t, o) ELSE NONE IN [pos |-> n, ok |-> n # NONE, want |-> n]
             [] ev.op = "catn"  -> IF ok /\ MBound(ev.m, t, o) THEN [pos |-> o, ok |-> TRUE, want |-> o]
                                   ELSE LET n == IF ok THEN MNext(ev.m, t, o) ELSE NONE IN [pos |-> n, ok |-> n # NONE, want |-> n]
             [] ev.op = "catp"  -> IF ok /\ MBound(ev.m, t, o) THEN [pos |-> o, ok |-> TRUE, want |-> o]
                                   ELSE LET n == IF ok THEN MPrev(ev.m, t, o) ELSE NONE IN [pos |-> n, ok |-> n # NONE, want |-> n]
             [] ev.op = "cisb"  -> [pos |-> o, ok |-> ok, want |-> IF ok /\ MBound(ev.m, t, o) THEN 1 ELSE 0]
             [] ev.op = "citer" -> [pos |-> NONE, ok |-> FALSE, want |-> ev.res]
             [] OTHER -> [pos |-> NONE, ok |-> FALSE, want |-> NONE]
  IN Res(/\ ev.res = r.want
         /\ r.ok => (ev.pos = r.pos /\ ev.valid = 1)
         /\ ~r.ok => ev.valid = 0,
         [st EXCEPT !.co = r.pos, !.cok = r.ok], r)

RECURSIVE BoundsFrom(_, _, _)
BoundsFrom(m, t, o) == LET n == MNext(m, t, o) IN IF n = NONE THEN <<>> ELSE <<n>> \o BoundsFrom(m, t, n)

On(st, ev) ==
  CASE ev.op = "str"    -> Made(st, ev, Norm(ev.t))
    [] ev.op = "build"  -> Made(st, ev, CatAll([k \in 1..Len(ev.parts) |->
                                  IF ev.parts[k].k = "r" THEN st.r[ev.parts[k].r] ELSE Norm(ev.parts[k].t)]))
    [] ev.op = "slice"  -> Made(st, ev, TSlice(st.r[ev.a], ev.b, ev.e))
    [] ev.op = "cat"    -> Made(st, ev, Cat(st.r[ev.a], st.r[ev.b]))
    [] ev.op = "edit"   -> Made(st, ev, Edit(st.r[ev.d], ev.b, ev.e, Norm(ev.t)))
    [] ev.op = "editr"  -> Made(st, ev, Edit(st.r[ev.d], ev.b, ev.e, st.r[ev.a]))
    [] ev.op = "copy"   -> Made(st, ev, st.r[ev.a])
    [] ev.op = "eq"     -> LET w == st.r[ev.a] = st.r[ev.b] IN Res(ev.res = w, st, w)
    [] ev.op = "cow"    -> LET w == TSlice(st.r[ev.a], ev.b, ev.e) IN Res(ev.res = w, st, w)
    [] ev.op = "chunks" -> LET w == TSlice(st.r[ev.a], ev.b, ev.e) IN
                           Res(CatAll(ev.res) = w /\ \A k \in 1..Len(ev.res) : ev.res[k] # <<>>, st, w)
    [] ev.op = "raw"    -> LET w == RawLines(TSlice(st.r[ev.a], ev.b, ev.e)) IN Res(ev.res = w, st, w)
    [] ev.op = "lines"  -> LET w == Lines(TSlice(st.r[ev.a], ev.b, ev.e)) IN Res(ev.res = w, st, w)
    [] ev.op = "lof"    -> LET w == LineOf(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "ool"    -> LET w == OffsetOfLine(st.r[ev.a], ev.l) IN Res(ev.res = w, st, w)
    [] ev.op = "to16"   -> LET w == Utf16(TSlice(st.r[ev.a], 0, ev.o)) IN Res(ev.res = w, st, w)
    [] ev.op = "of16"   -> LET w == OffsetOfUtf16(st.r[ev.a], ev.n) IN Res(ev.res = w, st, w)
    [] ev.op = "l16"    -> LET w == Utf16(TSlice(st.r[ev.a], 0, OffsetOfLine(st.r[ev.a], ev.l))) IN Res(ev.res = w, st, w)
    [] ev.op = "isb"    -> LET w == Bound(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "prevc"  -> LET w == BoundPrev(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "nextc"  -> LET w == BoundNext(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "atnc"   -> LET w == IF Bound(st.r[ev.a], ev.o) THEN ev.o ELSE BoundNext(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "atpc"   -> LET w == IF Bound(st.r[ev.a], ev.o) THEN ev.o ELSE BoundPrev(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "nextg"  -> LET w == GNext(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "prevg"  -> LET w == GPrev(st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "chars"  -> LET w == TSlice(st.r[ev.a], ev.b, ev.e) IN Res(ev.res = w, st, w)
    [] ev.op = "rchars" -> LET w == TSlice(st.r[ev.a], ev.b, ev.e) IN
                           Res([k \in 1..Len(ev.res) |-> ev.res[Len(ev.res) + 1 - k]] = w, st, w)
    [] ev.op = "bounds" -> LET w == BoundsFrom(ev.m, st.r[ev.a], ev.o) IN Res(ev.res = w, st, w)
    [] ev.op = "diff"   -> LET t == st.r[ev.a] u == st.r[ev.b]
                               v == <<DeltaWf(ev.els, t), DeltaWf(ev.els, t) /\ DeltaText(ev.els, t) = u,
                                      KeepsEnds(ev.els, t, u), ev.bl = TLen(t), ev.res = u>>
                           IN Res(\A k \in 1..Len(v) : v[k], st, v)
    [] ev.op = "minr"   -> LET w == MinRange(st.r[ev.a], st.r[ev.b]) IN Res(ev.res = w, st, w)
    [] ev.op = "ne"     -> LET t == st.r[ev.a] u == st.r[ev.b]
                               w == Lcp(TSlice(t, ev.x, TLen(t)), TSlice(u, ev.y, TLen(u)))
                           IN Res(ev.res = IF ev.stop < 0 THEN w ELSE IMin(w, ev.stop), st, w)
    [] ev.op = "neb"    -> LET t == st.r[ev.a] u == st.r[ev.b]
                               w == Lcs(TSlice(t, 0, ev.x), TSlice(u, 0, ev.y))
                           IN Res(ev.res = IF ev.stop < 0 THEN w ELSE IMin(w, ev.stop), st, w)
    [] ev.op = "cnew"   -> Res(ev.pos = ev.o, [st EXCEPT !.ct = st.r[ev.a], !.co = ev.o, !.cok = TRUE], ev.o)
    [] ev.op \in {"cset", "cnext", "cprev", "catn", "catp", "cisb"} -> OnCursor(st, ev)
    [] OTHER -> Res(FALSE, st, <<"no such step">>)

Fresh == [r |-> <<<<>>, <<>>, <<>>, <<>>>>, ct |-> <<>>, co |-> 0, cok |-> FALSE]

Init == i = 1 /\ s = Fresh /\ skip = TRUE
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i] IN
     IF ev.op = "new" THEN s' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE LET r == On(s, ev) IN
          /\ s' = r.st
          /\ skip' = ~r.ok
          /\ r.ok \/ PrintT("MISMATCH " \o ToJson([line |-> i, want |-> r.want]))
Done == i = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ i' = i + 1 /\ UNCHANGED <<s, skip>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================

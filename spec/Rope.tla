-------------------------------- MODULE Rope --------------------------------
(* What a rope is to its users: a sequence of characters.  A text is kept as   *)
(* a sequence of runs <<c, n>> (n > 0 copies of code point c, neighbours of     *)
(* different c), so that texts of many tree leaves stay small.  Offsets are     *)
(* UTF-8 byte offsets.                                                          *)
EXTENDS VUtil

Wd(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Wd16(c) == IF c < 65536 THEN 1 ELSE 2
LF == 10
CR == 13

PushRun(t, c, n) == IF n = 0 THEN t
                    ELSE IF Len(t) > 0 /\ t[Len(t)][1] = c
                         THEN [t EXCEPT ![Len(t)] = <<c, @[2] + n>>]
                         ELSE Append(t, <<c, n>>)
Cat(t, u) == IF u = <<>> THEN t
             ELSE PushRun(t, u[1][1], u[1][2]) \o SubSeq(u, 2, Len(u))

RECURSIVE CatAll(_)
CatAll(ts) == IF ts = <<>> THEN <<>> ELSE Cat(CatAll(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)])

RECURSIVE NormFrom(_, _, _)
NormFrom(t, k, acc) == IF k > Len(t) THEN acc ELSE NormFrom(t, k + 1, PushRun(acc, t[k][1], t[k][2]))
Norm(t) == NormFrom(t, 1, <<>>)

(* byte offset at which run k starts; Starts(t)[Len(t)+1] is the length *)
RECURSIVE StartsFrom(_, _, _)
StartsFrom(t, k, acc) == IF k > Len(t) THEN acc
                         ELSE StartsFrom(t, k + 1, Append(acc, acc[k] + Wd(t[k][1]) * t[k][2]))
Starts(t) == StartsFrom(t, 1, <<0>>)
TLen(t) == Starts(t)[Len(t) + 1]

(* the run holding byte o (o < length): number of the last run starting at or before o *)
RECURSIVE RunAtIn(_, _, _, _)
RunAtIn(st, o, a, b) == IF a = b THEN a
                        ELSE LET m == (a + b + 1) \div 2 IN
                             IF st[m] <= o THEN RunAtIn(st, o, m, b) ELSE RunAtIn(st, o, a, m - 1)
RunAt(st, o) == RunAtIn(st, o, 1, Len(st) - 1)

Bound(t, o) == LET st == Starts(t) IN
               \/ o = st[Len(st)]
               \/ /\ o < st[Len(st)]
                  /\ LET r == RunAt(st, o) IN (o - st[r]) % Wd(t[r][1]) = 0

(* the characters between two byte offsets that are both boundaries *)
TSlice(t, a, b) ==
  IF a >= b THEN <<>> ELSE
  LET st == Starts(t)
      ra == RunAt(st, a)
      rb == RunAt(st, b - 1)
      Piece(k) == LET lo == IMax(a, st[k]) hi == IMin(b, st[k + 1]) IN <<t[k][1], (hi - lo) \div Wd(t[k][1])>>
  IN [k \in 1..(rb - ra + 1) |-> Piece(ra + k - 1)]

RECURSIVE SumRuns(_, _, _)
SumRuns(t, k, c) == IF k = 0 THEN 0 ELSE SumRuns(t, k - 1, c) + (IF t[k][1] = c THEN t[k][2] ELSE 0)
Newlines(t) == SumRuns(t, Len(t), LF)
RECURSIVE U16Runs(_, _)
U16Runs(t, k) == IF k = 0 THEN 0 ELSE U16Runs(t, k - 1) + Wd16(t[k][1]) * t[k][2]
Utf16(t) == U16Runs(t, Len(t))
RECURSIVE NChars(_, _)
NChars(t, k) == IF k = 0 THEN 0 ELSE NChars(t, k - 1) + t[k][2]

Edit(t, a, b, u) == Cat(Cat(TSlice(t, 0, a), u), TSlice(t, b, TLen(t)))

(* ---- boundaries of a unit ---- *)
NONE == -1
BoundNext(t, o) ==            \* least character boundary > o
  LET st == Starts(t) n == st[Len(st)] IN
  IF o >= n THEN NONE ELSE LET r == RunAt(st, o) w == Wd(t[r][1]) IN st[r] + ((o - st[r]) \div w + 1) * w
BoundPrev(t, o) ==            \* greatest character boundary < o
  IF o = 0 THEN NONE
  ELSE LET st == Starts(t) r == RunAt(st, o - 1) w == Wd(t[r][1]) IN st[r] + ((o - 1 - st[r]) \div w) * w

(* offset just after the newline that follows byte o: the line boundary > o *)
RECURSIVE NlFrom(_, _, _)
NlFrom(t, k, n) == IF k > n THEN 0 ELSE IF t[k][1] = LF THEN k ELSE NlFrom(t, k + 1, n)
RECURSIVE NlBack(_, _)
NlBack(t, k) == IF k = 0 THEN 0 ELSE IF t[k][1] = LF THEN k ELSE NlBack(t, k - 1)

LineNext(t, o) ==
  LET st == Starts(t) n == st[Len(st)] IN
  IF o >= n THEN NONE
  ELSE LET r == RunAt(st, o) IN
       IF t[r][1] = LF THEN o + 1
       ELSE LET k == NlFrom(t, r + 1, Len(t)) IN IF k = 0 THEN NONE ELSE st[k] + 1
LinePrev(t, o) ==             \* greatest line boundary < o (a place > 0 just after a newline)
  IF o <= 1 THEN NONE
  ELSE LET st == Starts(t) r == RunAt(st, o - 2) IN
       IF t[r][1] = LF THEN o - 1
       ELSE LET k == NlBack(t, r - 1) IN IF k = 0 THEN NONE ELSE st[k + 1]
LineBound(t, o) == o > 0 /\ LET st == Starts(t) r == RunAt(st, o - 1) IN t[r][1] = LF

MBound(m, t, o) == IF m = "lines" THEN LineBound(t, o) ELSE Bound(t, o)
MNext(m, t, o) == IF m = "lines" THEN LineNext(t, o) ELSE BoundNext(t, o)
MPrev(m, t, o) == IF m = "lines" THEN LinePrev(t, o) ELSE BoundPrev(t, o)

LineOf(t, o) == Newlines(TSlice(t, 0, o))        \* o on a boundary
RECURSIVE NthNl(_, _, _, _)
NthNl(t, st, k, n) == IF t[k][1] # LF THEN NthNl(t, st, k + 1, n)
                      ELSE IF t[k][2] >= n THEN st[k] + n ELSE NthNl(t, st, k + 1, n - t[k][2])
OffsetOfLine(t, l) == IF l = 0 THEN 0 ELSE IF l > Newlines(t) THEN TLen(t) ELSE NthNl(t, Starts(t), 1, l)

RECURSIVE U16Off(_, _, _, _)
U16Off(t, st, k, n) == IF n = 0 THEN st[k]
                       ELSE LET w == Wd16(t[k][1]) IN
                            IF n >= w * t[k][2] THEN U16Off(t, st, k + 1, n - w * t[k][2])
                            ELSE st[k] + (n \div w) * Wd(t[k][1])
OffsetOfUtf16(t, n) == U16Off(t, Starts(t), 1, n)

(* lines without their ends; with = TRUE keeps the ends *)
DropLast(t, c) == IF Len(t) = 0 \/ t[Len(t)][1] # c THEN t
                  ELSE IF t[Len(t)][2] = 1 THEN SubSeq(t, 1, Len(t) - 1)
                  ELSE [t EXCEPT ![Len(t)] = <<c, @[2] - 1>>]
Chomp(t) == IF Len(t) > 0 /\ t[Len(t)][1] = LF THEN DropLast(DropLast(t, LF), CR) ELSE t
RECURSIVE RawLinesFrom(_, _)
RawLinesFrom(t, o) == LET n == LineNext(t, o) IN
                      IF n = NONE THEN (IF o < TLen(t) THEN <<TSlice(t, o, TLen(t))>> ELSE <<>>)
                      ELSE <<TSlice(t, o, n)>> \o RawLinesFrom(t, n)
RawLines(t) == RawLinesFrom(t, 0)
Lines(t) == LET r == RawLines(t) IN [k \in 1..Len(r) |-> Chomp(r[k])]

(* ---- what two texts have in common at their ends, in whole characters (bytes) ---- *)
RECURSIVE LcpRuns(_, _, _)
LcpRuns(t, u, k) ==
  IF k > Len(t) \/ k > Len(u) \/ t[k][1] # u[k][1] THEN 0
  ELSE IF t[k][2] = u[k][2] THEN Wd(t[k][1]) * t[k][2] + LcpRuns(t, u, k + 1)
  ELSE Wd(t[k][1]) * IMin(t[k][2], u[k][2])
Lcp(t, u) == LcpRuns(t, u, 1)
RevT(t) == [k \in 1..Len(t) |-> t[Len(t) + 1 - k]]
Lcs(t, u) == Lcp(RevT(t), RevT(u))
MinRange(t, u) == LET s == Lcp(t, u) IN <<s, IMin(Lcs(t, u), IMin(TLen(t), TLen(u)) - s)>>

(* a computed difference: ascending copies of whole characters of t, and insertions, that make u,
   and that keep what is common at the ends *)
DeltaText(els, t) == CatAll([k \in 1..Len(els) |-> IF els[k].k = "c" THEN TSlice(t, els[k].b, els[k].e) ELSE Norm(els[k].t)])
DeltaWf(els, t) ==
  /\ \A k \in 1..Len(els) : els[k].k = "c" => /\ els[k].b <= els[k].e /\ els[k].e <= TLen(t)
                                              /\ Bound(t, els[k].b) /\ Bound(t, els[k].e)
  /\ \A k, l \in 1..Len(els) : (k < l /\ els[k].k = "c" /\ els[l].k = "c") => els[k].e <= els[l].b
KeepsEnds(els, t, u) ==
  LET m == MinRange(t, u) n == TLen(t) IN
  /\ m[1] > 0 => (Len(els) > 0 /\ els[1].k = "c" /\ els[1].b = 0 /\ els[1].e >= m[1])
  /\ m[2] > 0 => (Len(els) > 0 /\ els[Len(els)].k = "c" /\ els[Len(els)].e = n /\ els[Len(els)].b <= n - m[2])

(* ---- user-perceived characters, for the alphabet the drivers use ---- *)
Class(c) == CASE c = CR -> "CR" [] c = LF -> "LF"
              [] c = 8205 -> "ZWJ"                               \* zero width joiner
              [] c \in {769, 776, 65039, 127995} -> "Ext"        \* combining marks, variation selector, skin tone
              [] c \in 127462..127487 -> "RI"                    \* regional indicators
              [] c \in {128512, 128104, 128105, 10084} -> "Pict"
              [] c \in {1, 7} -> "Ctl"
              [] OTHER -> "Other"
(* the character that ends at / starts at boundary o, and how many of it precede o in its run *)
CharBefore(t, o) == LET st == Starts(t) IN t[RunAt(st, o - 1)][1]
CharAfter(t, o) == LET st == Starts(t) IN t[RunAt(st, o)][1]
RECURSIVE RIsBefore(_, _)
RIsBefore(t, o) == IF o = 0 THEN 0 ELSE IF Class(CharBefore(t, o)) # "RI" THEN 0
                   ELSE 1 + RIsBefore(t, BoundPrev(t, o))
RECURSIVE PictBefore(_, _)    \* is what precedes o a pictograph followed by extenders only?
PictBefore(t, o) == IF o = 0 THEN FALSE
                    ELSE LET c == Class(CharBefore(t, o)) IN
                         IF c = "Pict" THEN TRUE
                         ELSE IF c = "Ext" THEN PictBefore(t, BoundPrev(t, o)) ELSE FALSE
GBreak(t, o) ==               \* o a character boundary strictly inside the text: do two user characters meet here?
  LET a == Class(CharBefore(t, o)) b == Class(CharAfter(t, o)) IN
  CASE a = "CR" /\ b = "LF" -> FALSE
    [] a \in {"CR", "LF", "Ctl"} \/ b \in {"CR", "LF", "Ctl"} -> TRUE
    [] b \in {"Ext", "ZWJ"} -> FALSE
    [] a = "ZWJ" /\ b = "Pict" -> ~PictBefore(t, BoundPrev(t, o))
    [] a = "RI" /\ b = "RI" -> RIsBefore(t, o) % 2 = 0
    [] OTHER -> TRUE
RECURSIVE GNext(_, _)
GNext(t, o) == LET n == BoundNext(t, o) IN
               IF n = NONE THEN NONE ELSE IF n = TLen(t) \/ GBreak(t, n) THEN n ELSE GNext(t, n)
RECURSIVE GPrev(_, _)
GPrev(t, o) == LET p == BoundPrev(t, o) IN
               IF p = NONE THEN NONE ELSE IF p = 0 \/ GBreak(t, p) THEN p ELSE GPrev(t, p)
=============================================================================

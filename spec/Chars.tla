-------------------------------- MODULE Chars --------------------------------
(* Texts of the editor: sequences of code points.  Position p is the place      *)
(* before unit p+1 (0..Len).  Byte columns appear at the protocol's edge only.  *)
EXTENDS VUtil

LF == 10
CR == 13
Wd(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE BytesIn(_, _, _)
BytesIn(T, a, b) == IF a >= b THEN 0 ELSE Wd(T[a + 1]) + BytesIn(T, a + 1, b)

(* ---- user-perceived characters, for the alphabet the drivers use ---- *)
Pict == {128512, 128104, 128105, 10084, 127988}
Class(c) == CASE c < 127 -> (IF c = LF THEN "LF" ELSE IF c = CR THEN "CR" ELSE IF c < 32 THEN "Ctl" ELSE "Other")
              [] c = 8205 -> "ZWJ"
              [] c \in {769, 776, 8419, 65039} \/ c \in 127995..127999 \/ c \in 917536..917631 -> "Ext"
              [] c \in {173, 8203, 8232, 8233, 8288, 65279} \/ c \in 127..159 -> "Ctl"
              [] c \in 127462..127487 -> "RI"
              [] c \in Pict -> "Pict"
              [] OTHER -> "Other"
RECURSIVE RIsUpTo(_, _)
RIsUpTo(T, p) == IF p = 0 THEN 0 ELSE IF Class(T[p]) # "RI" THEN 0 ELSE 1 + RIsUpTo(T, p - 1)
RECURSIVE PictUpTo(_, _)
PictUpTo(T, p) == IF p = 0 THEN FALSE
                  ELSE LET c == Class(T[p]) IN IF c = "Pict" THEN TRUE ELSE IF c = "Ext" THEN PictUpTo(T, p - 1) ELSE FALSE
GBreak(T, p) ==               \* 0 < p < Len(T): do two user characters meet here?
  IF T[p] \in 32..126 /\ T[p + 1] < 127 THEN TRUE ELSE
  LET a == Class(T[p]) b == Class(T[p + 1]) IN
  CASE a = "CR" /\ b = "LF" -> FALSE
    [] a \in {"CR", "LF", "Ctl"} \/ b \in {"CR", "LF", "Ctl"} -> TRUE
    [] b \in {"Ext", "ZWJ"} -> FALSE
    [] a = "ZWJ" /\ b = "Pict" -> ~PictUpTo(T, p - 1)
    [] a = "RI" /\ b = "RI" -> RIsUpTo(T, p) % 2 = 0
    [] OTHER -> TRUE
RECURSIVE GFloor(_, _)        \* greatest boundary of user characters <= p
GFloor(T, p) == IF p <= 0 \/ p >= Len(T) THEN IMax(0, IMin(p, Len(T))) ELSE IF GBreak(T, p) THEN p ELSE GFloor(T, p - 1)
RECURSIVE GCeil(_, _)
GCeil(T, p) == IF p <= 0 \/ p >= Len(T) THEN IMax(0, IMin(p, Len(T))) ELSE IF GBreak(T, p) THEN p ELSE GCeil(T, p + 1)
GPrev(T, p) == GFloor(T, p - 1)     \* 0 at the start
GNext(T, p) == GCeil(T, p + 1)      \* the end at the end

(* ---- lines ---- *)
LStarts(T) == <<0>> \o SelectSeq([k \in 1..Len(T) |-> k], LAMBDA k : T[k] = LF)
RECURSIVE LineIn(_, _, _, _)
LineIn(ls, p, a, b) == IF a = b THEN a - 1
                       ELSE LET m == (a + b + 1) \div 2 IN IF ls[m] <= p THEN LineIn(ls, p, m, b) ELSE LineIn(ls, p, a, m - 1)
LineOf(ls, p) == LineIn(ls, p, 1, Len(ls))                            \* 0-based, of visual or real lines
OffOfLine(T, ls, l) == IF l >= Len(ls) THEN Len(T) ELSE ls[l + 1]
ColOf(T, ls, p) == BytesIn(T, ls[LineOf(ls, p) + 1], p)
LC(T, ls, p) == <<LineOf(ls, p), ColOf(T, ls, p)>>

RECURSIVE Walk(_, _, _)       \* furthest position reached from a by whole characters within col bytes
Walk(T, a, col) == IF a >= Len(T) \/ Wd(T[a + 1]) > col THEN a ELSE Walk(T, a + 1, col - Wd(T[a + 1]))
LineColToPos(T, ls, line, col) ==
  LET n == Len(T)
      a == OffOfLine(T, ls, line)
      w == Walk(T, a, col)
      atend == w = n
      p == IF atend THEN n ELSE GFloor(T, w)
      nx == OffOfLine(T, ls, line + 1)
  IN IF atend /\ LineOf(ls, n) <= line THEN n
     ELSE IF p >= nx THEN GPrev(T, nx) ELSE p

(* ---- words ---- *)
Prop(c) == IF c <= 32 THEN (IF c = LF THEN "L" ELSE "S")
           ELSE IF c \in 33..47 \/ c \in 58..64 \/ c \in 91..94 \/ c = 96 \/ c \in 123..126 THEN "P" ELSE "O"
CB(a, b) == CASE a = "L" \/ b = "L" -> "both"
              [] a = "S" /\ b \in {"O", "P"} -> "start"
              [] a = "P" /\ b = "O" -> "start"
              [] a \in {"O", "P"} /\ b = "S" -> "end"
              [] a = "O" /\ b = "P" -> "end"
              [] OTHER -> "in"
CBInit(a, b) == CASE a = "L" /\ b = "O" -> "start"
                  [] a = "O" /\ b = "L" -> "end"
                  [] (a = "L" /\ b \in {"S", "P"}) \/ (a \in {"S", "P"} /\ b = "L") -> "in"
                  [] (a = "S" /\ b = "P") \/ (a = "P" /\ b = "S") -> "in"
                  [] OTHER -> CB(a, b)
IsS(x) == x \in {"start", "both"}
IsE(x) == x \in {"end", "both"}
WB(T, p) == CB(Prop(T[p]), Prop(T[p + 1]))
RECURSIVE WLeft(_, _, _)      \* from p leftwards to the first stop
WLeft(T, p, any) == IF p = 0 THEN 0
                    ELSE IF (IF any THEN WB(T, p) # "in" ELSE IsS(WB(T, p))) THEN p ELSE WLeft(T, p - 1, any)
RECURSIVE WRight(_, _, _)
WRight(T, p, any) == IF p = Len(T) THEN p
                     ELSE IF (IF any THEN WB(T, p) # "in" ELSE IsE(WB(T, p))) THEN p ELSE WRight(T, p + 1, any)
WPrev(T, p) == IF p = 0 THEN 0 ELSE WLeft(T, p - 1, FALSE)
WNext(T, p) == IF p = Len(T) THEN p ELSE WRight(T, p + 1, FALSE)
SelWord(T, p) ==
  LET n == Len(T)
      inner == p > 0 /\ p < n
      ib == IF inner THEN CBInit(Prop(T[p]), Prop(T[p + 1])) ELSE "both"
      any == ib = "in"
  IN IF n = 0 THEN <<0, 0>>
     ELSE <<IF p = 0 THEN 0 ELSE IF p < n /\ IsS(ib) THEN p ELSE WLeft(T, p - 1, any),
            IF p = n THEN n ELSE IF p > 0 /\ IsE(ib) THEN p ELSE WRight(T, p + 1, any)>>

(* ---- where backspace at caret p begins to delete ---- *)
IsVS(c) == c \in 65024..65039
IsEmojiMod(c) == c \in 127995..127999
IsRI(c) == c \in 127462..127487
IsEmoji(c) == c \in {35, 42} \/ c \in 48..57 \/ IsRI(c) \/ IsEmojiMod(c) \/ c \in Pict
IsModBase(c) == c \in {128104, 128105}
IsKeycapBase(c) == c \in {35, 42} \/ c \in 48..57
IsTag(c) == c \in 917536..917630
CancelTag == 917631
RECURSIVE Bk(_, _, _, _, _)   \* st, position before which the next code point is read, count, last seen vs
Bk(T, st, q, cnt, vs) ==
  IF q = 0 THEN cnt ELSE
  LET c == T[q] IN
  CASE st = "start" -> (CASE c = LF -> Bk(T, "lf", q - 1, 1, 0)
                          [] IsVS(c) -> Bk(T, "vs", q - 1, 1, 0)
                          [] IsRI(c) -> Bk(T, "odd", q - 1, 1, 0)
                          [] IsEmojiMod(c) -> Bk(T, "mod", q - 1, 1, 0)
                          [] c = 8419 -> Bk(T, "cap", q - 1, 1, 0)
                          [] c = CancelTag -> Bk(T, "tag", q - 1, 1, 0)
                          [] IsEmoji(c) -> Bk(T, "emoji", q - 1, 1, 0)
                          [] OTHER -> 1)
    [] st = "lf" -> IF c = CR THEN cnt + 1 ELSE cnt
    [] st = "odd" -> IF IsRI(c) THEN Bk(T, "even", q - 1, cnt + 1, vs) ELSE cnt
    [] st = "even" -> IF IsRI(c) THEN Bk(T, "odd", q - 1, cnt - 1, vs) ELSE cnt
    [] st = "cap" -> IF IsVS(c) THEN Bk(T, "vscap", q - 1, cnt, 1) ELSE IF IsKeycapBase(c) THEN cnt + 1 ELSE cnt
    [] st = "vscap" -> IF IsKeycapBase(c) THEN cnt + vs + 1 ELSE cnt
    [] st = "mod" -> IF IsVS(c) THEN Bk(T, "vsmod", q - 1, cnt, 1) ELSE IF IsModBase(c) THEN cnt + 1 ELSE cnt
    [] st = "vsmod" -> IF IsModBase(c) THEN cnt + vs + 1 ELSE cnt
    [] st = "vs" -> IF IsEmoji(c) THEN Bk(T, "emoji", q - 1, cnt + 1, vs) ELSE IF ~IsVS(c) THEN cnt + 1 ELSE cnt
    [] st = "emoji" -> IF c = 8205 THEN Bk(T, "zwj", q - 1, cnt, vs) ELSE cnt
    [] st = "zwj" -> IF IsEmoji(c) THEN Bk(T, IF IsEmojiMod(c) THEN "mod" ELSE "emoji", q - 1, cnt + 2, vs)
                     ELSE IF IsVS(c) THEN Bk(T, "vszwj", q - 1, cnt, 1) ELSE cnt
    [] st = "vszwj" -> IF IsEmoji(c) THEN Bk(T, "emoji", q - 1, cnt + vs + 2, 0) ELSE cnt
    [] st = "tag" -> IF IsTag(c) THEN Bk(T, "tag", q - 1, cnt + 1, vs) ELSE IF IsEmoji(c) THEN cnt + 1 ELSE 1
BackStart(T, p, cfg) ==
  LET ls == LStarts(T)
      col == ColOf(T, ls, p)
      off == col % cfg.tab
      k == IF off = 0 THEN cfg.tab ELSE off
      a == IMax(0, p - k)                     \* spaces are one byte each
      spaces == p > 0 /\ \A q \in (a + 1)..p : T[q] = 32
  IN IF spaces /\ cfg.tr /\ cfg.stops THEN a ELSE p - Bk(T, "start", p, 0, 0)
=============================================================================

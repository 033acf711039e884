-------------------------------- MODULE Wrap --------------------------------
(* Lines as the user sees them: where a text may be broken, and where it is      *)
(* broken at a width.  A width is <<kind, n>>: kind 0: lines of the text; 1: n    *)
(* characters; 2: n units of what the front-end measures.                        *)
EXTENDS Chars
LOCAL INSTANCE SequencesExt

NoWrap == <<0, 0>>
(* ---- where the text may be broken, for the alphabet the drivers use ---- *)
LB(c) == CASE c = LF -> "LF" [] c = CR -> "CR" [] c \in {11, 12, 8232, 8233, 133} -> "BK"
           [] c = 32 -> "SP" [] c = 9 -> "BA" [] c = 45 -> "HY" [] c \in 48..57 -> "NU"
           [] c \in {44, 46} -> "IS" [] c \in 19968..40959 -> "ID" [] OTHER -> "AL"
MayBreak(T, p) ==         \* 0 < p < Len(T)
  LET a == LB(T[p]) b == LB(T[p + 1]) IN
  CASE a \in {"LF", "BK"} -> TRUE
    [] a = "CR" -> b # "LF"
    [] b \in {"SP", "LF", "CR", "BK", "IS"} -> FALSE
    [] a = "SP" -> TRUE
    [] b \in {"BA", "HY"} -> FALSE
    [] a = "HY" -> b # "NU"
    [] a = "BA" \/ a = "ID" \/ b = "ID" -> TRUE
    [] OTHER -> FALSE
MustBreak(T, p) == IF p = Len(T) THEN T[p] = LF
                   ELSE LET a == LB(T[p]) IN a \in {"LF", "BK"} \/ (a = "CR" /\ T[p + 1] # LF)
Measure(c) == IF c = 105 THEN 1 ELSE IF c > 8192 THEN 4 ELSE 2      \* by the front-end
(* Lines are filled with words as long as they fit, what follows a word included. *)
(* x: a word began at x.pos and is x.n wide so far, the line before it x.used.     *)
Filled(T, w) ==
  LET End(x, q) == LET full == x.used # 0 /\ x.used + x.n > w[2]
                       used == IF full THEN 0 ELSE x.used
                       acc == IF full THEN Append(x.acc, x.pos) ELSE x.acc
                   IN IF MustBreak(T, q) \/ (used = 0 /\ x.n >= w[2] /\ q < Len(T))
                      THEN [pos |-> q, n |-> 0, used |-> 0, acc |-> Append(acc, q)]
                      ELSE [pos |-> q, n |-> 0, used |-> used + x.n, acc |-> acc]
      Add(x, q) == LET y == [x EXCEPT !.n = @ + (IF w[1] = 1 THEN 1 ELSE Measure(T[q]))] IN
                   IF q = Len(T) \/ MayBreak(T, q) THEN End(y, q) ELSE y
  IN FoldLeft(Add, [pos |-> 0, n |-> 0, used |-> 0, acc |-> <<0>>], [k \in 1..Len(T) |-> k]).acc
WrapStarts(T, w) == IF w[1] = 0 THEN LStarts(T) ELSE Filled(T, w)
=============================================================================

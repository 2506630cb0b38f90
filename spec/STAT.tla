------------------------------- MODULE STAT --------------------------------
(* Running statistics over the finite samples since the last reset, and the *)
(* record of them that is refreshed by an update.  Samples are integers.    *)
EXTENDS Integers, Sequences, TLC

NaN == 2000000000
Inf == 1999999999
Finite(x) == x > -Inf /\ x < Inf
Empty == [n |-> 0, S |-> 0, Q |-> 0, mn |-> 0, mx |-> 0, c |-> NaN]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Add(s, x) ==
  IF ~Finite(x) THEN [s EXCEPT !.c = x]
  ELSE [n |-> s.n + 1, S |-> s.S + x, Q |-> s.Q + x * x, c |-> x,
        mn |-> IF s.n = 0 THEN x ELSE Min(s.mn, x), mx |-> IF s.n = 0 THEN x ELSE Max(s.mx, x)]
\* win = 0: the window never ends
Update(w) ==
  [w EXCEPT !.d = IF w.s.n > 0 THEN w.s ELSE @,
            !.s = IF w.win > 0 /\ w.s.n >= w.win THEN Empty ELSE @]
New(win) == [s |-> Empty, d |-> Empty, win |-> win]
Do(w, e) ==
  CASE e.op = "ADD" -> [w EXCEPT !.s = Add(@, e.x)]
    [] e.op = "RST" -> [w EXCEPT !.s = Empty]
    [] e.op = "UPD" -> Update(w)
    [] e.op = "DRST" -> [w EXCEPT !.d = [Empty EXCEPT !.c = w.d.c]]
=============================================================================

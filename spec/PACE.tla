------------------------------- MODULE PACE --------------------------------
(* The pace of the control loop.  A cycle starts, works for some time, and  *)
(* then waits.  Times are integers (nanoseconds in the real system);        *)
(* `ahead` is how far the start of a cycle lies before (negative: after)    *)
(* its scheduled time: 0 unless cycles are made up.                         *)
EXTENDS Integers, Sequences, TLC

CeilDiv(a, b) == (a + b - 1) \div b
\* c: [mode, manage, P, min]; ahead <= 0; w: duration of the work
\* the cycle lasts gap, the next one starts with ahead
Cycle(c, ahead, w) ==
  CASE c.mode = "periodic" ->
         LET r == ahead + c.P - w   \* the next scheduled start, as seen from the end of the work
             s == IF c.manage /\ r < 0 THEN r + CeilDiv(-r, c.P) * c.P ELSE r IN
         IF s >= 0 THEN [gap |-> w + s, ahead |-> 0] ELSE [gap |-> w, ahead |-> s]
    [] c.mode = "sim" -> [gap |-> IF w < c.P THEN c.P ELSE w, ahead |-> 0]
    [] c.mode = "block" -> [gap |-> IF w < c.min THEN w + c.min ELSE w, ahead |-> 0]
=============================================================================

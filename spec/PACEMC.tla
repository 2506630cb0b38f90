------------------------------ MODULE PACEMC -------------------------------
(* Every sequence of cycle durations, on a coarse clock.                    *)
EXTENDS PACE
CONSTANTS P, Most, Back
VARIABLES c, ahead, gap, w, late
vars == <<c, ahead, gap, w, late>>
\* late: by how much the start of the cycle is off the grid of periods that began with the first cycle
Confs == [mode : {"periodic", "sim", "block"}, manage : BOOLEAN, P : {P}, min : {2}]
Init == c \in Confs /\ ahead = 0 /\ gap = P /\ w = 0 /\ late = 0
Next == \E x \in 0..Most :
  LET r == Cycle(c, ahead, x) IN
  /\ r.ahead >= -Back
  /\ w' = x /\ ahead' = r.ahead /\ gap' = r.gap /\ UNCHANGED c
  /\ late' = (late + r.gap) % P
Spec == Init /\ [][Next]_vars

Periodic == c.mode = "periodic"
\* work is never cut short
Whole == gap >= w
\* without an overrun, a cycle lasts exactly one period
Regular == [][Periodic /\ ahead = 0 /\ w' <= P => gap' = P]_vars
\* with overrun management every cycle starts on the grid, as soon as possible after the work
Managed == [][Periodic /\ c.manage => ahead' = 0 /\ late' = 0 /\ gap' - w' <= P]_vars
\* without it, missed cycles follow without delay until none is missing
MadeUp == [][Periodic /\ ~c.manage => /\ ahead' < 0 => gap' = w'
                                      /\ ahead' = 0 => late' = 0
                                      /\ ahead' = IF ahead + P - w' < 0 THEN ahead + P - w' ELSE 0]_vars
Stretched == [][c.mode = "block" => gap' >= c.min /\ (w' >= c.min => gap' = w')]_vars
Simulated == [][c.mode = "sim" => gap' >= P /\ (w' <= P => gap' = P)]_vars
=============================================================================

----------------------------- MODULE PACETrace -----------------------------
(* Validates recorded cycles of the control node against PACE.              *)
EXTENDS PACE, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "NEW"}
VARIABLES l, c, tol, ahead, bad
vars == <<l, c, tol, ahead, bad>>
Abs(a) == IF a < 0 THEN -a ELSE a
\* a rate that does not divide a second makes the count of missed periods inexact by nanoseconds
Conf(o) == [mode |-> o.mode, manage |-> o.manage, P |-> 1000000000 \div o.rate, min |-> o.min * 1000]
Init == \E k \in Starts : l = k /\ c = Conf(Log[k]) /\ tol = (IF 1000000000 % Log[k].rate = 0 THEN 0 ELSE 100) /\ ahead = 0 /\ bad = {}
Next ==
  /\ l < Len(Log) /\ Log[l + 1].op = "CYC"
  /\ l' = l + 1 /\ UNCHANGED <<c, tol>>
  /\ \E r \in {Cycle(c, ahead, Log[l + 1].w)} :
       LET e == Log[l + 1] ok == Abs(e.gap - r.gap) <= tol /\ e.p = e.gap IN
       /\ ahead' = r.ahead
       /\ bad' = IF ok THEN {} ELSE {"X01"}
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == l
=============================================================================

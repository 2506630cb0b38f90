----------------------------- MODULE TRAJTrace -----------------------------
(* Validates recorded executions of the real trajectory point limiter       *)
(* against TRAJ.                                                            *)
EXTENDS TRAJ, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "TNEW"}
VARIABLES l, Ls, bad, dead
vars == <<l, Ls, bad, dead>>
Init == \E k \in Starts : l = k /\ Ls = Log[k].L /\ bad = {} /\ dead = FALSE
Fits(e) == LET r == Point(Ls, e) IN e.res = r.out /\ e.lim = r.lim /\ e.ex
Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op = "TENF"
  /\ l' = l + 1 /\ UNCHANGED <<Ls, dead>>
  /\ bad' = IF Fits(Log[l + 1]) THEN {} ELSE {"L03"}
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, dead>>
=============================================================================

------------------------------ MODULE MKTrace ------------------------------
(* Validates recorded mock hardware against MK.  Values are rounded in the   *)
(* recording, so the model goes on from what was recorded.                   *)
EXTENDS MK, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, bad
vars == <<l, w, bad>>
If(c, s) == IF c THEN s ELSE {}
Abs(v) == IF v < 0 THEN -v ELSE v
Near(a, b) == IF Fin(a) /\ Fin(b) THEN Abs(a - b) <= 64 ELSE a = b
Same(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : Near(f[k], g[k])
\* a read that fails may have got anywhere
Partly(f, g, h) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : Near(f[k], g[k]) \/ Near(f[k], h[k])
Seen(e) == DOMAIN e.st # {} \/ DOMAIN e.cm # {}
Bad(e, x, y) ==
       If(e.op # "RESET" /\ e.res # Res(x, e), {"G01 result " \o Res(x, e)})
  \cup If(e.op # "RESET" /\ e.life # y.life, {"G01 lifecycle"})
  \cup If(Seen(e) /\ e.op = "READ" /\ Alive(x) /\ Faulty(x), IF Partly(e.st, y.st, x.st) THEN {} ELSE {"G01 states of a failing read"})
  \cup If(Seen(e) /\ ~(e.op = "READ" /\ Alive(x) /\ Faulty(x)), IF Same(e.st, y.st) THEN {} ELSE {"G01 states " \o ToString(<<y.st, IF y.ready THEN y.mode ELSE {}>>)})
  \cup If(Seen(e), IF Same(e.cm, y.cm) THEN {} ELSE {"G01 commands " \o ToString(y.cm)})
  \cup If(~Seen(e) /\ Alive(y), {"G01 interfaces"})
Adopt(e, y) == IF Seen(e) /\ y.ready THEN [y EXCEPT !.st = e.st] ELSE y
Init == \E k \in DOMAIN Log : Log[k].op = "RESET" /\ l = k /\ w = World0 /\ bad = {}
Next ==
  /\ bad = {} /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E y \in {Do(w, Log[l + 1])} : bad' = Bad(Log[l + 1], w, y) /\ w' = IF bad' = {} THEN Adopt(Log[l + 1], y) ELSE y
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

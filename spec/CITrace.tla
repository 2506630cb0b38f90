------------------------------ MODULE CITrace ------------------------------
(* Validates a recorded controller against CI.                              *)
EXTENDS CI, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, bad
vars == <<l, w, bad>>
If(c, s) == IF c THEN s ELSE {}
Bad(e, x, y) ==
       If(e.res # Res(x, e), IF e.op \in {"UPD", "CHAIN", "EXPR", "EXPS"} THEN {"C01 result"} ELSE {"C03 result"})
  \cup If(e.calls # Calls(x, e), IF e.op \in {"UPD", "CHAIN"} THEN {"C01 calls"} ELSE {"C03 calls"})
  \cup If(e.id # y.id \/ e.lid # y.id, {"C03 state"})
  \cup If(e.rate # y.rate, {"C03 rate"})
  \cup If(e.chd # y.chd, {"C01 chained mode"})
  \cup If(e.loans # y.loans, {"C03 loans"})
  \cup If(e.refs # [k \in DOMAIN y.refs |-> [n |-> y.refs[k].n, u |-> y.refs[k].v, c |-> y.refs[k].v]], {"C01 references"})
  \cup If(e.stas # [k \in DOMAIN y.stas |-> [n |-> y.stas[k].n, u |-> y.stas[k].v, c |-> y.stas[k].v]], {"C01 states"})
Init == \E k \in DOMAIN Log : Log[k].op = "RESET" /\ l = k /\ w = World0 /\ bad = {}
Next ==
  /\ bad = {} /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E y \in {Do(w, Log[l + 1])} : w' = y /\ bad' = Bad(Log[l + 1], w, y)
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

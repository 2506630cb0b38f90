------------------------------ MODULE SPTrace ------------------------------
(* Validates recorded runs of the command line tools against SP.             *)
EXTENDS SP, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, bad
vars == <<l, w, bad>>
If(c, s) == IF c THEN s ELSE {}
P(e) == IF e.op = "SPAWN" THEN "S01" ELSE "S02"
\* a call as it is recorded
Said(c) == IF c.call.k \in {c.call.k} /\ "n" \in DOMAIN c.call THEN [x \in DOMAIN c.call \ {"n"} |-> c.call[x]] ELSE c.call
Calls(m) == [i \in DOMAIN m.calls |-> Said(m.calls[i])]
Locks(m) == [i \in DOMAIN m.calls |-> m.calls[i].lock]
Bad(e, r) ==
  LET v == r[1] m == r[2] IN
       If(e.res # m.res, {P(e) \o " exit code"})
  \cup If(e.calls # Calls(m), {P(e) \o " requests " \o ToString(Calls(m))})
  \cup If(e.ctl # v.ctl, {P(e) \o " controllers"})
  \cup If(e.hws # v.hw, {P(e) \o " hardware"})
  \cup If([i \in DOMAIN e.par |-> <<e.par[i][1], e.par[i][2]>>] # [i \in DOMAIN v.par |-> <<SubSeq(v.par[i][1], 5, Len(v.par[i][1])), v.par[i][2]>>], {P(e) \o " parameters"})
  \cup If(e.waited # m.waited, {P(e) \o " waiting"})
  \cup If(e.lockw \/ e.lock # 0, {P(e) \o " lock kept"})
  \cup If(e.op = "SPAWN" /\ e.node # 0, {P(e) \o " node kept"})
  \cup If(e.held # Locks(m), {P(e) \o " lock held for the requests"})
Init == \E k \in DOMAIN Log : Log[k].op = "RESET" /\ l = k /\ w = World0 /\ bad = {}
Next ==
  /\ bad = {} /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ IF Log[l + 1].op = "EXT" THEN w' = Do(w, Log[l + 1]) /\ bad' = {}
     ELSE \E r \in {Run(w, Log[l + 1])} : bad' = Bad(Log[l + 1], r) /\ w' = r[1]
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

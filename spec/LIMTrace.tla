------------------------------ MODULE LIMTrace -----------------------------
(* Validates recorded executions of the real limiters against LIM.          *)
EXTENDS LIM, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "NEW"}
VARIABLES l, w, bad, dead
vars == <<l, w, bad, dead>>

New(e) == [kind |-> e.kind, L |-> e.L, S |-> e.S, pc |-> None, ex |-> TRUE]
Init == \E k \in Starts : l = k /\ w = New(Log[k]) /\ bad = {} /\ dead = FALSE

Near(a, b, tol) == Len(a) = Len(b) /\ (Has(a) => Abs(a[1] - b[1]) <= tol)
\* whether e is a step of the limiter; rounding matters once values are off the grid
Fits(e, zero) ==
  LET r == Enforce(w, e, zero)
      apos == IF Num(e.act.p) THEN e.act.p ELSE w.pc.p
      ppos == IF Has(w.pc.p) THEN w.pc.p ELSE Known(e.act).p
      tol == IF w.ex /\ e.ex /\ ~(w.kind = "soft" /\ Rough(w.L, w.S, ppos, apos)) THEN 0 ELSE 16
      edge == tol > 0 /\ \E q \in Q : Num(e.des[q]) /\ (Abs(e.des[q][1] - r.r[q].lo) <= tol \/ Abs(e.des[q][1] - r.r[q].hi) <= tol) IN
  /\ e.threw = r.threw
  /\ \A q \in Q : IF Num(r.out[q]) THEN Num(e.res[q]) /\ Near(e.res[q], r.out[q], tol) ELSE e.res[q] = r.out[q]
  /\ edge \/ e.lim = r.lim
Step(e) ==
  CASE e.op = "RST" -> [w |-> [w EXCEPT !.pc = None, !.ex = TRUE], ok |-> TRUE]
    [] e.op = "ENF" ->
         LET r == Enforce(w, e, FALSE)
             ppos == IF Has(w.pc.p) THEN w.pc.p ELSE Known(e.act).p
             rough == w.kind = "soft" /\ Rough(w.L, w.S, ppos, IF Num(e.act.p) THEN e.act.p ELSE w.pc.p)
             pc == IF r.threw \/ e.dn <= 0 THEN r.w.pc
                   ELSE [q \in Q |-> IF Num(e.res[q]) THEN e.res[q] ELSE r.w.pc[q]] IN
         [w |-> [w EXCEPT !.pc = pc, !.ex = @ /\ e.ex /\ ~rough],
          ok |-> Fits(e, FALSE) \/ Fits(e, TRUE)]
    [] OTHER -> [w |-> w, ok |-> FALSE]
Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op # "NEW"
  /\ l' = l + 1
  /\ \E s \in {Step(Log[l + 1])} :
       /\ w' = s.w /\ dead' = ~s.ok
       /\ bad' = IF s.ok THEN {} ELSE {IF w.kind = "soft" THEN "L02" ELSE "L01"}
       /\ ~s.ok => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, dead>>
=============================================================================

------------------------------ MODULE HNDTrace -----------------------------
(* Validates recorded uses of real handles against HND.                     *)
EXTENDS HND, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "NEW"}
VARIABLES l, w, bad
vars == <<l, w, bad>>
Rng(s) == {s[i] : i \in DOMAIN s}
Sees(e, x) ==
  /\ Rng(e.s.o) = {SeesSlot(x, i) : i \in DOMAIN x.slot}
  /\ Rng(e.s.l) = {SeesLoan(x, i) : i \in DOMAIN x.loan}
  /\ \A n \in DOMAIN e.s.c : e.s.c[n].v = x.cell[e.s.c[n].c]
Init == \E k \in Starts : l = k /\ w = New(Log[k].cells) /\ bad = {}
Next ==
  /\ bad = {} /\ l < Len(Log) /\ Log[l + 1].op # "NEW"
  /\ l' = l + 1
  /\ \E d \in {Do(w, Log[l + 1])} :
       /\ w' = d.w
       /\ bad' = IF Log[l + 1].r = d.r /\ Sees(Log[l + 1], d.w) THEN {} ELSE {"D01"}
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

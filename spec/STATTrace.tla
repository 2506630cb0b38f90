----------------------------- MODULE STATTrace -----------------------------
(* Validates recorded statistics against STAT.                              *)
EXTENDS STAT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "NEW"}
VARIABLES l, w, bad
vars == <<l, w, bad>>
Abs(a) == IF a < 0 THEN -a ELSE a
\* r: reported mean and variance are rounded to 1/256
Shows(r, s, off) ==
  /\ r.n = s.n
  /\ r.c = s.c
  /\ IF s.n = 0 THEN r.avg = NaN /\ r.mn = NaN /\ r.mx = NaN /\ r.v = NaN
     ELSE /\ r.mn = s.mn /\ r.mx = s.mx
          /\ Abs(r.avg) <= 10000 /\ Abs(r.v) <= 300000
          /\ Abs(r.avg * s.n - 256 * s.S) <= s.n
          /\ Abs(r.v * s.n - 256 * s.Q + (256 * s.S * s.S) \div s.n) <= s.n + 1
Ok(e, x) == Shows(e.s, x.s, 0) /\ Shows(e.d, x.d, 0) /\ e.g
Init == \E k \in Starts : l = k /\ w = New(Log[k].win) /\ bad = IF Ok(Log[k], New(Log[k].win)) THEN {} ELSE {"K01"}
Next ==
  /\ bad = {} /\ l < Len(Log) /\ Log[l + 1].op # "NEW"
  /\ l' = l + 1
  /\ \E x \in {Do(w, Log[l + 1])} :
       /\ w' = x
       /\ bad' = IF Ok(Log[l + 1], x) THEN {} ELSE {"K01"}
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

------------------------------ MODULE LIMMC --------------------------------
(* Exhaustive exploration of the limiters on a small grid: every limit set, *)
(* measured state, history of commands and request.                         *)
EXTENDS LIM
CONSTANTS Kind, N, Dns, Full   \* Full: every limit set, not only those of the quick check

VARIABLES w, o, res
vars == <<w, o, res>>

Vals == (-N)..N
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Lims == { [hp |-> hp, lo |-> -2, hi |-> 2, hv |-> hv, v |-> v, ha |-> ha, a |-> 1, hd |-> hd, d |-> 2,
           hj |-> hj, j |-> 1, he |-> he, e |-> 2] :
           hp \in BOOLEAN, hv \in BOOLEAN, v \in IF Full /\ Kind = "hard" THEN {1, 2} ELSE {1}, ha \in BOOLEAN, hd \in IF Full THEN BOOLEAN ELSE {FALSE},
           hj \in {TRUE}, he \in IF Full THEN BOOLEAN ELSE {TRUE} }
Softs == IF Kind = "hard" THEN {[has |-> FALSE, lo |-> 0, hi |-> 0, k |-> NAN, kv |-> NAN]}
         ELSE {[has |-> h, lo |-> -1, hi |-> 1, k |-> k, kv |-> kv] : h \in IF Full THEN BOOLEAN ELSE {TRUE}, k \in IF Full THEN {NAN, 2, 4} ELSE {NAN, 2}, kv \in IF Full THEN {NAN, 2} ELSE {2}}
\* quantities whose limits do not depend on each other are explored together
Des == {[None EXCEPT !.p = a, !.v = b] : a \in Opt(Vals), b \in Opt(Vals)}
       \cup {[None EXCEPT !.v = b, !.e = a] : a \in Opt(Vals), b \in Opt(Vals)}
       \cup {[None EXCEPT !.a = a, !.j = a] : a \in Opt(Vals)}
Act == {[None EXCEPT !.p = a, !.v = b] : a \in Opt((-3)..3), b \in Opt((-1)..1)}
Req == {[act |-> a, des |-> d, dn |-> n] : a \in Act, d \in Des, n \in Dns}
Nil == [act |-> None, des |-> None, dn |-> 0]

Init == \E L \in Lims, S \in Softs :
  /\ w = [kind |-> Kind, L |-> L, S |-> S, pc |-> None]
  /\ o = Nil /\ res = Enforce(w, Nil, TRUE)
Next == \E q \in Req, z \in BOOLEAN :
  /\ o' = q /\ res' = Enforce(w, q, z) /\ w' = res'.w
Spec == Init /\ [][Next]_vars
\* the previous effort, acceleration and jerk have no influence
View == <<w.L, w.S, w.pc.p, w.pc.v, w.pc = None>>

Within(L, act) == /\ L.hp /\ Has(act.p) => act.p[1] \in L.lo..L.hi
                  /\ L.hv /\ Has(act.v) => Abs(act.v[1]) <= L.v
In(x, lo, hi) == Num(x) => x[1] >= lo /\ x[1] <= hi
\* the claims of the properties, for every step
Step(l, oo, n) ==
  LET L == l.L out == n.out pc == Fill(l.pc, oo.act, oo.des) IN
  (oo.dn > 0 /\ ~n.threw) =>
  /\ n.lim <=> out # oo.des
  /\ \A q \in Q : (~Num(oo.des[q]) => out[q] = oo.des[q])
  /\ \A q \in Q : Num(oo.des[q]) /\ n.r[q].lo <= oo.des[q][1] /\ oo.des[q][1] <= n.r[q].hi => out[q] = oo.des[q]
  /\ \A q \in Q : n.r[q].lo <= n.r[q].hi
  /\ L.hp /\ (Has(pc.p) => pc.p[1] \in L.lo..L.hi) => In(out.p, L.lo, L.hi)
  /\ L.hv /\ Within(L, oo.act) /\ Num(out.p) /\ Has(pc.p) /\ (L.hp => pc.p[1] \in L.lo..L.hi)
       /\ (l.kind = "soft" /\ SoftPos(l.S) => pc.p[1] \in l.S.lo..l.S.hi)
     => Abs(out.p[1] - pc.p[1]) <= L.v \div oo.dn
  /\ L.hv /\ (Has(pc.v) => Abs(pc.v[1]) <= L.v) /\ (l.kind = "soft" /\ Has(oo.act.v) => Abs(oo.act.v[1]) <= L.v) => In(out.v, -L.v, L.v)
  /\ L.he => In(out.e, -L.e, L.e)
  /\ L.ha => In(out.a, -Max(L.a, IF L.hd THEN L.d ELSE 0), Max(L.a, IF L.hd THEN L.d ELSE 0))
  /\ L.hj => In(out.j, -L.j, L.j)
  \* never faster away from the previous velocity than the acceleration allows, unless the range demands it
  /\ (l.kind = "hard" /\ L.hv /\ L.ha /\ Has(pc.v) /\ Num(out.v) /\ ~(L.hp /\ Has(oo.act.p)) /\ Abs(pc.v[1]) <= L.v)
     => Abs(out.v[1] - pc.v[1]) <= L.a \div oo.dn
  \* the measured position plus the commanded velocity stays in the range (a soft
  \* limiter goes by the position commanded before, if there is one)
  /\ ((l.kind = "hard" \/ ~Has(pc.p) \/ pc.p = oo.act.p) /\ L.hp /\ L.hv /\ ~L.ha /\ Has(oo.act.p) /\ oo.act.p[1] \in L.lo..L.hi /\ Num(out.v))
     => oo.act.p[1] + out.v[1] \div oo.dn \in L.lo..L.hi
  \* soft range
  /\ (l.kind = "soft" /\ SoftPos(l.S) /\ Num(out.p) /\ (L.hp => l.S.lo >= L.lo /\ l.S.hi <= L.hi) /\ (Has(pc.p) => pc.p[1] \in l.S.lo..l.S.hi)
       /\ Has(pc.p))
     => In(out.p, l.S.lo, l.S.hi)
  /\ (l.kind = "soft" /\ SoftOn(l.S) /\ L.hp /\ L.hv /\ ~L.ha /\ Num(out.v) /\ Num(oo.des.v)
       /\ Has(pc.p) /\ Has(oo.act.p) /\ oo.act.p[1] \in l.S.lo..l.S.hi)
     => out.v[1] <= Max(0, (l.S.k * (l.S.hi - pc.p[1])) \div 2) /\ out.v[1] >= -Max(0, (l.S.k * (pc.p[1] - l.S.lo)) \div 2)
Claims == [][Step(w, o', res')]_vars
=============================================================================

------------------------------- MODULE LIM ---------------------------------
(* The limiters of one joint's commands: by the hard limits alone ("hard")  *)
(* and with soft limits ("soft").  Quantities are integers in units of      *)
(* 2^-20, the period is 1/dn seconds; an optional quantity is <<>> or <<x>>.*)
(* Inputs lie on a coarse grid, so that the arithmetic below is exact until *)
(* a gain or the fixed approach velocity of the soft limits comes in; from  *)
(* there on it is good to a few units.                                      *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Reach  \* velocity towards the soft range from outside, pi/180: 18301
INF == 1000000000
NAN == 2000000000
TolB == 2097        \* 0.002: how far outside a measured position may be
TolX == 9122        \* 0.0087: ... before the limiter gives up

Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF b < a THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF hi < x THEN hi ELSE x
Has(o) == o # <<>>
Q == {"p", "v", "e", "a", "j"}
None == [q \in Q |-> <<>>]
Num(o) == Has(o) /\ o[1] # NAN
\* a measured value that is not a number is not known
Known(act) == [q \in DOMAIN act |-> IF Num(act[q]) THEN act[q] ELSE <<>>]
Order(r) == IF r.lo > r.hi THEN [lo |-> r.hi, hi |-> r.lo] ELSE r
Free == [lo |-> -INF, hi |-> INF]

(* L: [hp, lo, hi, hv, v, ha, a, hd, d, hj, j, he, e];                      *)
(* S: [has, lo, hi, k, kv]: soft range and twice the gains (NAN: not given) *)
OutOfRange(L, ap) == L.hp /\ Has(ap) /\ (ap[1] > L.hi + TolX \/ ap[1] < L.lo - TolX)

PosRange(L, av, ap, pp, dn) ==
  LET r == IF L.hp THEN [lo |-> L.lo, hi |-> L.hi] ELSE Free
      dv == IF L.ha THEN (IF Has(av) THEN Abs(av[1]) ELSE 0) + L.a \div dn ELSE L.v
      dp == Min(L.v, dv) \div dn
      ref == IF Has(pp) THEN pp ELSE ap IN
  IF ~L.hv \/ ~Has(ref) THEN r
  ELSE LET lo == Max(Min(ref[1] - dp, r.hi), r.lo) IN
       [lo |-> lo, hi |-> Min(Max(ref[1] + dp, lo), r.hi)]

VelRange(L, dv, ap, pv, dn) ==
  IF ~L.hv THEN Free
  ELSE
  LET r0 == [lo |-> -L.v, hi |-> L.v]
      out == L.hp /\ Has(ap) /\ (ap[1] > L.hi \/ ap[1] < L.lo)
      near == out /\ \/ ap[1] <= L.hi + TolB /\ ap[1] > L.lo /\ dv >= 0
                     \/ ap[1] >= L.lo - TolB /\ ap[1] < L.hi /\ dv <= 0
      far == out /\ (ap[1] > L.hi + TolB \/ ap[1] < L.lo - TolB)
      r1 == IF L.hp /\ Has(ap)
            THEN IF near \/ far THEN [lo |-> 0, hi |-> 0]
                 ELSE [lo |-> IF L.lo <= -INF THEN r0.lo ELSE Clamp((L.lo - ap[1]) * dn, -L.v, L.v),
                       hi |-> IF L.hi >= INF THEN r0.hi ELSE Clamp((L.hi - ap[1]) * dn, -L.v, L.v)]
            ELSE r0
      r2 == IF L.ha /\ Has(pv)
            THEN [lo |-> Max(pv[1] - L.a \div dn, r1.lo), hi |-> Min(pv[1] + L.a \div dn, r1.hi)]
            ELSE r1 IN
  Order(r2)

EffRange(L, ap, av) ==
  IF ~L.he THEN Free
  ELSE
  LET r0 == [lo |-> -L.e, hi |-> L.e]
      r1 == IF L.hp /\ Has(ap) /\ Has(av)
            THEN IF ap[1] <= L.lo /\ av[1] <= 0 THEN [r0 EXCEPT !.lo = 0]
                 ELSE IF ap[1] >= L.hi /\ av[1] >= 0 THEN [r0 EXCEPT !.hi = 0] ELSE r0
            ELSE r0 IN
  IF L.hv /\ Has(av)
  THEN IF av[1] < -L.v THEN [r1 EXCEPT !.lo = 0] ELSE IF av[1] > L.v THEN [r1 EXCEPT !.hi = 0] ELSE r1
  ELSE r1

AccRange(L, da, av) ==
  IF L.hd /\ Has(av) /\ ((da < 0 /\ av[1] > 0) \/ (da > 0 /\ av[1] < 0)) THEN [lo |-> -L.d, hi |-> L.d]
  ELSE IF L.ha THEN [lo |-> -L.a, hi |-> L.a]
  ELSE Free
JerkRange(L) == IF L.hj THEN [lo |-> -L.j, hi |-> L.j] ELSE Free

\* a limiter without history takes the measured values as the previous command
Fill(pc, act, des) ==
  IF \E q \in Q : Has(pc[q]) THEN pc
  ELSE [q \in Q |-> IF ~Has(des[q]) THEN <<>> ELSE IF Has(act[q]) THEN act[q] ELSE IF Num(des[q]) THEN des[q] ELSE <<>>]

\* ranges for all quantities by the hard limits
HardRanges(L, pc, act, des, dn) ==
  [p |-> PosRange(L, act.v, act.p, pc.p, dn),
   v |-> VelRange(L, IF Num(des.v) THEN des.v[1] ELSE 0, act.p, pc.v, dn),
   e |-> EffRange(L, act.p, act.v),
   a |-> AccRange(L, IF Num(des.a) THEN des.a[1] ELSE 0, act.v),
   j |-> JerkRange(L)]

SoftPos(S) == S.has /\ S.hi > S.lo
SoftOn(S) == SoftPos(S) /\ S.k # NAN /\ S.k # 0
\* zero: which sign the velocity at the very border of the soft range has
Sgn(x, zero) == IF x > 0 \/ (x = 0 /\ zero) THEN Reach ELSE -Reach

SoftVel(L, S, ppos, apos, zero) ==
  IF ~L.hv THEN Free
  ELSE IF ~(L.hp /\ SoftOn(S) /\ Has(ppos)) THEN [lo |-> -L.v, hi |-> L.v]
  ELSE LET lo == Clamp((-S.k * (ppos[1] - S.lo)) \div 2, -L.v, L.v)
           hi == Clamp((-S.k * (ppos[1] - S.hi)) \div 2, -L.v, L.v) IN
       IF Has(apos) /\ (apos[1] < L.lo - TolB \/ apos[1] > L.hi + TolB) THEN [lo |-> 0, hi |-> 0]
       ELSE IF Has(apos) /\ (apos[1] < S.lo \/ apos[1] > S.hi)
            THEN [lo |-> Sgn(lo, zero), hi |-> Sgn(hi, zero)]
       ELSE [lo |-> lo, hi |-> hi]
AtBorder(L, S, ppos) == L.hv /\ L.hp /\ SoftOn(S) /\ Has(ppos) /\ ppos[1] \in {S.lo, S.hi}
\* whether the result is not exact any more
Rough(L, S, ppos, apos) ==
  L.hv /\ L.hp /\ SoftOn(S) /\ Has(ppos) /\ (S.k % 2 # 0 \/ (Has(apos) /\ (apos[1] < S.lo \/ apos[1] > S.hi)))

SoftRanges(L, S, pc, act, des, dn, zero) ==
  LET h == HardRanges(L, pc, act, des, dn)
      apos == IF Has(act.p) THEN act.p ELSE pc.p
      ppos == IF Has(pc.p) THEN pc.p ELSE act.p
      sv == SoftVel(L, S, ppos, apos, zero)
      \* position: soft range, then what the allowed velocity reaches, then the hard range
      sp == IF SoftPos(S) THEN [lo |-> S.lo, hi |-> S.hi] ELSE Free
      vp == IF L.hv /\ Has(ppos)
            THEN LET lo == Clamp(ppos[1] + sv.lo \div dn, sp.lo, sp.hi) IN
                 [lo |-> lo, hi |-> Clamp(ppos[1] + sv.hi \div dn, lo, sp.hi)]
            ELSE sp
      hp == [lo |-> Max(vp.lo, h.p.lo), hi |-> Min(vp.hi, h.p.hi)]
      \* velocity: as well no further from the measured one than the acceleration allows
      av == IF L.hv /\ L.ha /\ Has(act.v)
            THEN [lo |-> Max(act.v[1] - L.a \div dn, sv.lo), hi |-> Min(act.v[1] + L.a \div dn, sv.hi)]
            ELSE sv
      vv == Order([lo |-> Max(av.lo, h.v.lo), hi |-> Min(av.hi, h.v.hi)])
      \* effort: proportional to the distance from the velocity bounds that apply
      ev == IF Num(des.v) THEN vv ELSE sv
      ee == IF L.he /\ S.has /\ S.kv # NAN /\ Has(act.v) /\ L.hv
            THEN LET lo == Clamp((-S.kv * (act.v[1] - ev.lo)) \div 2, -L.e, L.e)
                     hi == Clamp((-S.kv * (act.v[1] - ev.hi)) \div 2, -L.e, L.e) IN
                 Order([lo |-> Max(lo, h.e.lo), hi |-> Min(hi, h.e.hi)])
            ELSE h.e IN
  [h EXCEPT !.p = IF hp.lo > hp.hi THEN vp ELSE hp, !.v = vv, !.e = ee]

(* w: [kind, L, S, pc]; o: [act, des, dn].  Result: the command let through,*)
(* whether it was limited, and the ranges it was kept in.                   *)
Enforce(w, o0, zero) ==
  LET o == [o0 EXCEPT !.act = Known(@)]
      pc == Fill(w.pc, o.act, o.des)
      dn == Max(o.dn, 1)
      r == IF w.kind = "soft" THEN SoftRanges(w.L, w.S, pc, o.act, o.des, dn, zero)
           ELSE HardRanges(w.L, pc, o.act, o.des, dn)
      out == [q \in Q |-> IF Num(o.des[q]) THEN <<Clamp(o.des[q][1], r[q].lo, r[q].hi)>> ELSE o.des[q]] IN
  IF o.dn <= 0 THEN [w |-> w, out |-> o.des, lim |-> FALSE, threw |-> FALSE, r |-> r]
  ELSE IF Num(o.des.p) /\ OutOfRange(w.L, o.act.p)
  THEN [w |-> [w EXCEPT !.pc = pc], out |-> o.des, lim |-> FALSE, threw |-> TRUE, r |-> r]
  ELSE [w |-> [w EXCEPT !.pc = [q \in Q |-> IF Num(out[q]) THEN out[q] ELSE pc[q]]],
        out |-> out, lim |-> \E q \in Q : out[q] # o.des[q], threw |-> FALSE, r |-> r]
=============================================================================

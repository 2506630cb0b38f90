------------------------------- MODULE TRAJ --------------------------------
(* The limiter of trajectory points: what becomes of a desired point, given *)
(* the measured one.  Inputs are integers in units of 1/16; inside,         *)
(* positions are counted in 1/2048 and velocities and accelerations in      *)
(* 1/128, which makes the arithmetic exact for periods of 1, 1/2, 1/4, 1/8. *)
EXTENDS Integers, Sequences, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF b < a THEN b ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE 1
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF hi < x THEN hi ELSE x
PP == 128
VV == 8

(* One joint.  L: [hp, lo, hi, hv, v, ha, a, hd, d] (1/16); ap, av measured *)
(* position and velocity (1/16); p, v, a desired, present if hasp/hasv.     *)
Joint(L, ap, av, p, v, a, hasp, hasv, dn) ==
  LET \* position range
      p1 == IF hasp /\ L.hp THEN Clamp(p, L.lo, L.hi) ELSE p
      \* a position without velocity stands for the velocity that leads there
      v1 == IF hasp /\ v = 0 THEN (p1 - ap) * dn ELSE v
      \* velocity (1/16)
      fast == L.hv /\ Abs(v1) > L.v
      v2 == IF fast THEN Sign(v1) * L.v ELSE v1
      p2 == IF fast /\ hasp THEN ap * PP + (v2 * PP) \div dn ELSE p1 * PP
      a2 == IF fast THEN (v2 - av) * dn ELSE a
      \* acceleration (1/16)
      a3 == IF (L.ha \/ L.hd) /\ a2 = 0 THEN (v2 - av) * dn ELSE a2
      slowing == (a3 < 0 /\ av > 0) \/ (a3 > 0 /\ av < 0)
      most == IF L.hd /\ slowing THEN L.d ELSE IF L.ha THEN L.a ELSE -1
      hard == most >= 0 /\ Abs(a3) > most
      vh == av * VV + (Sign(a3) * most * VV) \div dn
      cap == Max(L.v, Abs(av)) * VV
      over == hard /\ L.hv /\ Abs(vh) > cap
      v4 == IF over THEN Sign(vh) * cap ELSE IF hard THEN vh ELSE v2 * VV
      a4 == IF over THEN (v4 - av * VV) * dn ELSE IF hard THEN Sign(a3) * most * VV ELSE a3 * VV
      p4 == IF hard /\ hasp THEN ap * PP + (av * PP) \div dn + (a4 * (PP \div VV)) \div (2 * dn * dn) ELSE p2
      \* velocity alone must not leave the range in the next step
      e == ap * PP + (v4 * (PP \div VV)) \div dn
      past == L.hp /\ hasv /\ ~hasp /\ (e < L.lo * PP \/ e > L.hi * PP)
      v5 == IF past THEN (Clamp(e, L.lo * PP, L.hi * PP) \div PP - ap) * dn * VV ELSE v4
      \* room to stop
      x == IF v5 < 0 THEN ap - L.lo ELSE L.hi - ap
      dec == IF L.hd THEN L.d ELSE IF L.ha THEN L.a ELSE 0
      short == IF dec = 0 THEN x * 16 * dn < Abs(v5) ELSE x * dec * 128 < v5 * v5
      tight == IF v5 < 0
               THEN IF dec = 0 THEN x * 8 * dn < v5 ELSE x * dec * 64 < -(v5 * v5)
               ELSE IF dec = 0 THEN x * 8 * dn < v5 ELSE x * dec * 64 < v5 * v5
      brake == L.hp /\ v5 # 0 /\ (short \/ tight) IN
  [p |-> p4, v |-> v5, a |-> a4, lim |-> p1 # p \/ fast \/ hard \/ past \/ brake, brake |-> brake,
   room |-> x, dec |-> dec]

\* what a joint does while all of them brake
Brake(L, ap, av, dn) ==
  LET a0 == -av * dn
      most == IF L.hd THEN L.d ELSE IF L.ha THEN L.a ELSE -1
      a == IF most >= 0 THEN Sign(a0) * Min(Abs(a0), most) ELSE a0 IN
  [a |-> a * VV, v |-> av * VV + (a * VV) \div dn, p |-> ap * PP + (av * PP) \div dn + (a * PP) \div (2 * dn * dn)]

(* Ls: limits of the joints; o: [ap, av, p, v, a: sequences, dn]            *)
Point(Ls, o) ==
  LET n == Len(Ls) J == DOMAIN Ls
      hasp == Len(o.p) = n  hasv == Len(o.v) = n  hasa == Len(o.a) = n
      dn == IF o.dn > 0 THEN o.dn ELSE 1
      av == IF Len(o.av) = n THEN o.av ELSE [i \in J |-> 0]
      out == [p |-> [i \in DOMAIN o.p |-> o.p[i] * PP], v |-> [i \in DOMAIN o.v |-> o.v[i] * VV], a |-> [i \in DOMAIN o.a |-> o.a[i] * VV]] IN
  IF o.dn <= 0 \/ Len(o.ap) # n \/ ~(hasp \/ hasv) THEN [out |-> out, lim |-> FALSE, brake |-> FALSE]
  ELSE
  LET r == TLCEval([i \in J |-> Joint(Ls[i], o.ap[i], av[i], IF hasp THEN o.p[i] ELSE 0, IF hasv THEN o.v[i] ELSE 0,
                                      IF hasa THEN o.a[i] ELSE 0, hasp, hasv, dn)])
      brake == \E i \in J : r[i].brake
      f == [i \in J |-> IF brake THEN Brake(Ls[i], o.ap[i], av[i], dn) ELSE [p |-> r[i].p, v |-> r[i].v, a |-> r[i].a]] IN
  [out |-> [p |-> IF hasp THEN [i \in J |-> f[i].p] ELSE out.p,
            v |-> IF hasv THEN [i \in J |-> f[i].v] ELSE out.v,
            a |-> IF hasa THEN [i \in J |-> f[i].a] ELSE out.a],
   lim |-> \E i \in J : r[i].lim, brake |-> brake]
=============================================================================

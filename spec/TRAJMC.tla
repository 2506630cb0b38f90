------------------------------ MODULE TRAJMC -------------------------------
(* Every point of a small grid for one and two joints.                      *)
EXTENDS TRAJ
CONSTANTS NJ, N
VARIABLES Ls, o, r
vars == <<Ls, o, r>>

Vals == (-N)..N
U == 16
Lims == { [hp |-> hp, lo |-> -2 * U, hi |-> 2 * U, hv |-> hv, v |-> 2 * U, ha |-> ha, a |-> U, hd |-> hd, d |-> 2 * U] :
           hp \in BOOLEAN, hv \in BOOLEAN, ha \in BOOLEAN, hd \in BOOLEAN }
Seqs(S) == [1..NJ -> S]
Grid == {x * U : x \in Vals}
ASet == {<<>>} \cup (IF NJ = 1 THEN Seqs(Grid) ELSE {})
\* of two joints, the second has all limits or none
LimSeqs == IF NJ = 1 THEN Seqs(Lims) ELSE {<<a, b>> : a \in Lims, b \in {c \in Lims : c.hp = c.hv /\ c.hv = c.ha /\ c.ha = c.hd}}
Init == /\ Ls \in LimSeqs
        /\ o \in [ap : Seqs({x * U : x \in (-2)..(IF NJ = 1 THEN 2 ELSE -1)}), av : {<<>>} \cup (IF NJ = 1 THEN Seqs(Grid) ELSE {<<-U, U>>, <<U, -U>>, <<-U, -U>>}),
                  p : {<<>>} \cup Seqs(Grid), v : {<<>>} \cup Seqs(Grid), a : ASet, dn : IF NJ = 1 THEN {1, 2} ELSE {1}]
        /\ r = Point(Ls, o)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

n == Len(Ls)
J == 1..n
AV(i) == IF o.av = <<>> THEN 0 ELSE o.av[i]
hasp == o.p # <<>>
hasv == o.v # <<>>
hasa == o.a # <<>>
Most(L) == IF L.ha /\ L.hd THEN (IF L.a < L.d THEN L.d ELSE L.a) ELSE IF L.ha THEN L.a ELSE L.d
\* the velocity leaving the limiter is within the limit if the measured one is
VelOk == \A i \in J : (Ls[i].hv /\ hasv /\ Abs(AV(i)) <= Ls[i].v /\ (Ls[i].ha \/ ~Ls[i].hd) /\ ~(Ls[i].hp /\ ~hasp)) => Abs(r.out.v[i]) <= Ls[i].v * VV
\* and so is its change, unless an acceleration was given or the position
\* range demands more
AccOk == \A i \in J : (Ls[i].ha /\ hasv /\ o.a = <<>> /\ ~(Ls[i].hp /\ ~hasp)) => Abs(r.out.v[i] - AV(i) * VV) <= (Most(Ls[i]) * VV) \div o.dn
AccOut == \A i \in J : (Ls[i].ha /\ hasa /\ (hasp \/ hasv)) => Abs(r.out.a[i]) <= Most(Ls[i]) * VV
\* a position leaving the limiter is in the range unless the joint cannot stop before its end
\* position and velocity of the desired point belong together
Fits(i) == hasv => o.v[i] = 0 \/ o.v[i] = (o.p[i] - o.ap[i]) * o.dn
PosOk == \A i \in J : (Ls[i].hp /\ hasp /\ ~r.brake /\ ~Ls[i].ha /\ ~Ls[i].hd /\ o.ap[i] \in Ls[i].lo..Ls[i].hi /\ Fits(i))
                        => r.out.p[i] >= Ls[i].lo * PP /\ r.out.p[i] <= Ls[i].hi * PP
\* velocity commands never lead out of the range in the next step
NextOk == \A i \in J : (Ls[i].hp /\ hasv /\ ~hasp /\ ~r.brake) =>
             LET e == o.ap[i] * PP + (r.out.v[i] * (PP \div VV)) \div o.dn IN e >= Ls[i].lo * PP /\ e <= Ls[i].hi * PP
\* braking never speeds a joint up
BrakeOk == r.brake /\ hasv => \A i \in J : Abs(r.out.v[i]) <= Abs(AV(i)) * VV
\* the limiter says so whenever it changed something
Told == ~r.lim => /\ hasp => r.out.p = [i \in J |-> o.p[i] * PP]
                  /\ hasv => \A i \in J : r.out.v[i] = o.v[i] * VV \/ (hasp /\ o.v[i] = 0)
                  /\ hasa => \A i \in J : r.out.a[i] = o.a[i] * VV \/ o.a[i] = 0
\* a point within all limits, with twice the room to stop, is not limited
Admissible(i) ==
  LET L == Ls[i] v == IF hasv /\ ~(hasp /\ o.v[i] = 0) THEN o.v[i] ELSE IF hasp THEN (o.p[i] - o.ap[i]) * o.dn ELSE 0
      a == IF hasa /\ o.a[i] # 0 THEN o.a[i] ELSE (v - AV(i)) * o.dn
      dec == IF L.hd THEN L.d ELSE IF L.ha THEN L.a ELSE 0 IN
  /\ L.hp /\ hasp => o.p[i] \in L.lo..L.hi
  /\ L.hp /\ ~hasp => o.ap[i] * o.dn + v \in (L.lo * o.dn)..(L.hi * o.dn)
  /\ L.hv => Abs(v) <= L.v
  /\ L.ha => Abs(a) <= L.a
  /\ L.hd => Abs(a) <= L.d
  /\ L.hp => LET x == IF v < 0 THEN o.ap[i] - L.lo ELSE L.hi - o.ap[i] IN
             v = 0 \/ (IF dec = 0 THEN x * o.dn >= Abs(v) ELSE x * dec >= v * v)
Passed == (r.lim = FALSE) \/ o.ap = <<>> \/ \E i \in J : ~Admissible(i)
=============================================================================

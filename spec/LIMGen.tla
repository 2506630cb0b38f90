------------------------------- MODULE LIMGen ------------------------------
(* Random sequences of requests to a limiter, as scripts for the driver.    *)
EXTENDS LIM, Json, FiniteSets
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>

G == 16384       \* grid: 1/64
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(x) == Rnd(1..100) <= x
Let1(v, F(_)) == F(v)

RandL(z) ==
  LET hi == Rnd(32..256) * G  lo == -Rnd(0..256) * G IN
  [hp |-> P(75), lo |-> IF P(90) THEN lo ELSE 0, hi |-> hi, hv |-> P(80), v |-> Rnd(8..200) * G, ha |-> P(60), a |-> Rnd(8..400) * G,
   hd |-> P(50), d |-> Rnd(8..400) * G, hj |-> P(60), j |-> Rnd(8..200) * G, he |-> P(70), e |-> Rnd(8..200) * G]
RandS(L) ==
  [has |-> P(85),
   lo |-> IF P(5) THEN NAN ELSE IF P(15) THEN L.lo ELSE L.lo + Rnd(0..48) * G,
   hi |-> IF P(5) THEN NAN ELSE IF P(15) THEN L.hi ELSE IF P(5) THEN L.lo ELSE L.hi - Rnd(0..20) * G,
   k |-> Pick(<<NAN, 0, 1, 2, 2, 4, 8, 16>>), kv |-> Pick(<<NAN, 0, 1, 2, 2, 4, 8>>)]
FixS(S) == IF S.lo = NAN \/ S.hi = NAN THEN [S EXCEPT !.lo = NAN, !.hi = NAN] ELSE S

\* measured position: inside, at the bounds, slightly and far outside of them
ActP(L, z) ==
  IF P(12) THEN <<>> ELSE IF P(5) THEN <<NAN>>
  ELSE IF Has(w.pc.p) /\ P(50) THEN <<w.pc.p[1] + Rnd((-3)..3) * G>>
  ELSE IF P(60) THEN <<Rnd((-260)..260) * G>>
  ELSE <<Pick(<<L.lo, L.hi, IF w.S.has /\ w.S.lo # NAN THEN w.S.lo ELSE 0, IF w.S.has /\ w.S.hi # NAN THEN w.S.hi ELSE 0>>)
         + Pick(<<0, 1000, -1000, 2090, -2090, 2105, -2105, 5000, -5000, 9115, -9115, 9130, -9130, G, -G, 4 * G, -4 * G>>)>>
ActV(L, z) ==
  IF P(25) THEN <<>> ELSE IF P(5) THEN <<NAN>> ELSE IF P(30) THEN <<Rnd((-8)..8) * G>> ELSE IF P(70) THEN <<Rnd(-(L.v \div G)..(L.v \div G)) * G>>
  ELSE <<Pick(<<L.v, -L.v, L.v + G, -L.v - G, 0, 2 * L.v>>)>>
DesP(L, z) ==
  IF P(8) THEN <<NAN>>
  ELSE IF Has(w.pc.p) /\ P(60) THEN <<w.pc.p[1] + Pick(<<0, 1, 2, -1, -2, 8, -8, 40, -40, 100, -100>>) * G>>
  ELSE IF P(50) THEN <<Pick(<<L.lo, L.hi, L.lo - G, L.hi + G, 0>>)>>
  ELSE <<Rnd((-300)..300) * G>>
DesV(L, z) ==
  IF P(8) THEN <<NAN>>
  ELSE IF Has(w.pc.v) /\ P(50) THEN <<w.pc.v[1] + Pick(<<0, 1, -1, 4, -4, 20, -20, 60, -60>>) * G>>
  ELSE IF P(40) THEN <<Pick(<<L.v, -L.v, L.v + G, -L.v - G, 0>>)>>
  ELSE <<Rnd((-220)..220) * G>>
DesX(m, z) == IF P(8) THEN <<NAN>> ELSE IF P(30) THEN <<Pick(<<m, -m, m + G, -m - G, 0, 1, -1>>)>> ELSE <<Rnd((-420)..420) * G>>
Quants == <<{"p"}, {"p"}, {"v"}, {"v"}, {"e"}, {"e"}, {"a"}, {"j"}, {"p", "v"}, {"p", "v"}, {"v", "e"}, {"p", "e"}, {"p", "v", "e", "a", "j"}, {}>>
RandDes(L, qs) ==
  [p |-> IF "p" \in qs THEN DesP(L, 0) ELSE <<>>, v |-> IF "v" \in qs THEN DesV(L, 0) ELSE <<>>,
   e |-> IF "e" \in qs THEN DesX(L.e, 0) ELSE <<>>,
   a |-> IF "a" \in qs THEN DesX(IF P(50) THEN L.a ELSE L.d, 0) ELSE <<>>, j |-> IF "j" \in qs THEN DesX(L.j, 0) ELSE <<>>]
Enf(L) ==
  [op |-> "ENF", dn |-> Pick(<<1, 2, 4, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 0, -1>>),
   act |-> [p |-> ActP(L, 0), v |-> ActV(L, 0), e |-> IF P(20) THEN <<Rnd((-9)..9) * G>> ELSE <<>>,
            a |-> IF P(20) THEN <<Rnd((-9)..9) * G>> ELSE <<>>, j |-> <<>>],
   des |-> RandDes(L, IF P(60) THEN w.qs ELSE Pick(Quants))]

New(L, z) == [op |-> "NEW", kind |-> Pick(<<"hard", "soft", "soft">>), L |-> L, S |-> TLCEval(FixS(RandS(L)))]
Begin == \E L \in {TLCEval(RandL(0))} : \E o \in {TLCEval(New(L, 0))} :
  /\ hist = <<>> /\ hist' = <<o>>
  /\ w' = [kind |-> o.kind, L |-> o.L, S |-> o.S, pc |-> None, qs |-> Pick(Quants)]
Work == \E r \in {Rnd(1..100)} :
  IF r <= 3 THEN hist' = Append(hist, [op |-> "RST"]) /\ w' = [w EXCEPT !.pc = None]
  ELSE \E o \in {TLCEval(Enf(w.L))} :
    /\ hist' = Append(hist, o) /\ w' = Enforce(w, o, FALSE).w
Init == hist = <<>> /\ w = <<>>
Next == IF hist = <<>> THEN Begin ELSE Work
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

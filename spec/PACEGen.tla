------------------------------ MODULE PACEGen ------------------------------
EXTENDS PACE, Json, FiniteSets
CONSTANTS D
VARIABLES c, ahead, hist
vars == <<c, ahead, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(x) == Rnd(1..100) <= x
Exact == {10, 20, 50, 100, 125, 200, 250, 500, 800, 1000, 2000}
RandC(z) == [op |-> "NEW", rate |-> IF P(75) THEN Rnd(Exact) ELSE Pick(<<7, 30, 60, 150, 300, 700, 1300>>),
             manage |-> P(60), mode |-> Pick(<<"periodic", "periodic", "periodic", "sim", "block">>), min |-> Pick(<<100, 200, 1000, 1500, 3>>)]
Conf(o) == [mode |-> o.mode, manage |-> o.manage, P |-> 1000000000 \div o.rate, min |-> o.min * 1000]
Begin == \E o \in {TLCEval(RandC(0))} : c' = Conf(o) /\ ahead' = 0 /\ hist' = <<o>>
\* off the boundaries where the rounding of a rate that does not divide a second matters
Work(z) == LET k == Rnd(0..100) m == IF c.P > 20000000 THEN 4 ELSE 12 IN
  IF k <= 45 THEN Rnd(0..99) * (c.P \div 100)
  ELSE IF k <= 55 THEN c.P
  ELSE IF k <= 75 THEN c.P + 5000 + Rnd(0..99) * (c.P \div 120)
  ELSE IF k <= 85 /\ 1000000000 % c.P = 0 THEN Rnd(0..m) * c.P + Rnd({0, 0, 1, 1000})
  ELSE IF k <= 90 THEN c.min + Rnd({-1, 0, 1})
  ELSE Rnd(0..m) * c.P + 5000 + Rnd(0..99) * (c.P \div 120)
Go == \E w \in {TLCEval(Work(0))} :
  LET r == Cycle(c, ahead, w) IN
  IF r.ahead < -1500000000 THEN UNCHANGED <<c, ahead>> /\ hist' = Append(hist, [op |-> "CYC", w |-> 0])
  ELSE ahead' = r.ahead /\ UNCHANGED c /\ hist' = Append(hist, [op |-> "CYC", w |-> w])
Init == hist = <<>> /\ c = <<>> /\ ahead = 0
Next == IF hist = <<>> THEN Begin ELSE Go
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

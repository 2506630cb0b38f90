------------------------------ MODULE STATGen ------------------------------
EXTENDS STAT, Json
CONSTANTS D
VARIABLES mode, hist
vars == <<mode, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
New0(z) == [op |-> "NEW", off |-> Pick(<<0, 0, 0, 100, 1000000, 100000000, -100000000>>), win |-> Pick(<<0, 1, 2, 3, 5, 10>>)]
\* all of one sign, of both, or close together
Val(m) == CASE m = 1 -> Rnd(-20..20) [] m = 2 -> Rnd(1..20) [] m = 3 -> Rnd(-20..-1) [] m = 4 -> Rnd({5, 6}) [] OTHER -> 7
Op(m) == LET k == Rnd(1..100) IN
  IF k <= 65 THEN [op |-> "ADD", x |-> Val(m)]
  ELSE IF k <= 72 THEN [op |-> "ADD", x |-> Pick(<<NaN, Inf, -Inf>>)]
  ELSE IF k <= 78 THEN [op |-> "RST"]
  ELSE IF k <= 96 THEN [op |-> "UPD"] ELSE [op |-> "DRST"]
Init == hist = <<>> /\ mode = 0
Next == IF hist = <<>> THEN \E o \in {TLCEval(New0(0))} : hist' = <<o>> /\ mode' = Rnd(1..5)
        ELSE \E o \in {TLCEval(Op(mode))} : hist' = Append(hist, o) /\ mode' = (IF Rnd(1..12) = 1 THEN Rnd(1..5) ELSE mode)
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

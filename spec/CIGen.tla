------------------------------- MODULE CIGen -------------------------------
EXTENDS CI, Json
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(n) == Rnd(1..100) <= n
Out(z) == IF P(75) THEN "OK" ELSE Pick(<<"F", "E", "X">>)
Life(op) == [op |-> op, o |-> Out(0), e |-> P(70)]
H(z) == [p |-> IF P(88) THEN "ctl" ELSE Pick(<<"ctl_x", "ctl_x", "other", "", "xctl", "ct">>), n |-> Pick(<<"a", "b", "c", "d", "e", "f", "g", "h">>)]
Hs(n) == [k \in 1..n |-> H(k)]
Lists(op) ==
  LET old == Hs(Rnd(0..2)) new == Hs(Rnd(0..3)) IN
  [op |-> op, old |-> old, new |-> new, size |-> IF P(88) THEN Len(old) ELSE Rnd(0..3), v |-> Rnd(1..99)]
\* only references are checked for the count of values
Expo(x, op) == LET o == Lists(op) IN IF op = "EXPR" THEN o ELSE [o EXCEPT !.size = Len(o.old)]
New0(z) == [op |-> "NEW", chn |-> P(85), cm |-> Pick(<<0, 1, 7, 10, 100, 100, 100, 500, 1000>>), o |-> IF P(96) THEN "OK" ELSE Pick(<<"F", "E">>)]
Wanted(x) == IF P(60) THEN Rnd(1..(IF x.cm = 0 THEN 10 ELSE x.cm)) ELSE IF P(80) THEN Pick(<<0, 1, 5, 50, 100, 2000, 64>>) ELSE -5
Op(x) ==
  LET k == Rnd(1..100) IN
  CASE k <= 10 -> [op |-> "CHAIN", b |-> P(50), o |-> P(80)]
    [] k > 10 /\ k <= 30 -> [op |-> "UPD", sub |-> IF P(75) THEN "OK" ELSE "ERROR", wr |-> IF P(75) THEN "OK" ELSE "ERROR"]
    [] k > 30 /\ k <= 38 -> Expo(x, "EXPR")
    [] k > 38 /\ k <= 44 -> Expo(x, "EXPS")
    [] k > 44 /\ k <= 50 -> [op |-> "WREF", k |-> Rnd(1..3), v |-> Rnd(1..99)]
    [] k > 50 /\ k <= 54 -> [op |-> "CREF", k |-> Rnd(1..3), v |-> Rnd(1..99)]
    [] k > 54 /\ k <= 60 -> [op |-> "WSTA", k |-> Rnd(1..3), v |-> Rnd(1..99)]
    [] k > 60 /\ k <= 66 -> [op |-> "PAR", r |-> Wanted(x)]
    [] k > 66 /\ k <= 69 -> [op |-> "LEND", n |-> Rnd(0..3)]
    [] k = 70 -> [op |-> "RELEASE"]
    [] k = 71 -> Life("SHUT")
    [] k > 71 /\ k <= 76 -> Life(Pick(<<"CONF", "ACT", "DEA", "CLE">>))
    [] k > 76 -> CASE x.id = Uncf -> Life("CONF") [] x.id = Inact -> Life(IF P(70) THEN "ACT" ELSE "CLE") [] x.id = Act -> Life("DEA") [] OTHER -> New0(0)
Init == hist = <<>> /\ w = World0
Next == \E o \in {TLCEval(IF hist = <<>> THEN [op |-> "RESET"] ELSE IF w.id = 0 THEN New0(0) ELSE Op(w))} : hist' = Append(hist, o) /\ w' = Do(w, o)
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

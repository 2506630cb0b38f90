------------------------------- MODULE MKGen -------------------------------
EXTENDS MK, Json, TLC
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(n) == Rnd(1..100) <= n
Filter(s, p) == LET f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE IF s[k] \in p THEN Append(f[k - 1], s[k]) ELSE f[k - 1] IN f[Len(s)]
Some(s, n) == Filter(s, {s[i] : i \in {i \in DOMAIN s : P(n)}})
Iv(n) == IF n \in Boolean THEN Pick(<<NaN, 0, One>>) ELSE IF P(50) THEN NaN ELSE Rnd(-8..8) * 1024
States(s, n) == LET c == Some(s, n) IN [k \in DOMAIN c |-> [n |-> c[k], iv |-> Iv(c[k])]]
JIfaces == <<"position", "velocity", "acceleration", "effort", "brake", "actual">>
\* wide: whether the joint has most of the interfaces
Joint(n, of, cust) ==
  LET dens == Pick(<<35, 60, 90>>)
      cm == Some(<<"position", "velocity", "acceleration", "effort", "brake">>, dens)
      sts == States(JIfaces, Pick(<<40, 70, 95>>)) IN
  [n |-> n, cmd |-> IF of # "" THEN <<>> ELSE IF cm = <<>> THEN <<"position">> ELSE cm,
   st |-> IF sts = <<>> THEN <<[n |-> "position", iv |-> Iv("position")]>> ELSE sts,
   of |-> of, mul |-> Pick(<<1, 2, -1, -2>>), mo |-> Pick(<<0, 0, 4096, -1024>>)]
Names == <<"joint1", "joint10", "arm_joint1", "joint2">>
Joints(z) ==
  LET order == Pick(<<<<1, 2, 3, 4>>, <<2, 1, 4, 3>>, <<3, 2, 1, 4>>, <<4, 1, 2, 3>>>>)
      n == Rnd(1..3) IN
  [k \in 1..n |-> Joint(Names[order[k]], IF k > 1 /\ P(35) THEN Names[order[1]] ELSE IF k = 1 /\ n > 2 /\ P(10) THEN Names[order[2]] ELSE "", "")]
\* no mimicking in a circle, no mimicking of a mimic before it was moved itself
Sane(js) == [k \in DOMAIN js |-> IF js[k].of # "" /\ (\E h \in DOMAIN js : h # k /\ js[h].n = js[k].of /\ js[h].of # "") THEN [js[k] EXCEPT !.of = "", !.cmd = <<"position">>] ELSE js[k]]
Conf(z) ==
  LET gs == Some(<<"joint1_io", "g">>, 50) ss == Some(<<"ft">>, 50) IN
  [op |-> "NEW", dyn |-> P(55), dis |-> P(6), ms |-> P(50), mg |-> P(40), off |-> Pick(<<0, 0, 4096, -2048>>), cust |-> Pick(<<"", "", "", "actual", "missing">>),
   joints |-> Sane(Joints(z)),
   sens |-> [k \in DOMAIN ss |-> [n |-> ss[k], st |-> LET s == States(<<"x", "y", "on">>, 60) IN IF s = <<>> THEN <<[n |-> "x", iv |-> NaN]>> ELSE s]],
   gpios |-> [k \in DOMAIN gs |-> [n |-> gs[k], cmd |-> Some(<<"v", "on", "position">>, 50), st |-> LET s == States(<<"v", "on", "u">>, 60) IN IF s = <<>> THEN <<[n |-> "v", iv |-> NaN]>> ELSE s]]]
KeySeq(c) == \* the commands in the order of the description, the faked ones as a set
  LET cat(ps) == LET f[k \in 0..Len(ps)] == IF k = 0 THEN <<>> ELSE f[k - 1] \o [i \in DOMAIN ps[k].cmd |-> Key(ps[k].n, ps[k].cmd[i])] IN f[Len(ps)]
  IN cat(c.joints) \o cat(c.gpios)
Swap(s) == IF Len(s) > 1 /\ P(50) THEN [i \in DOMAIN s |-> s[Len(s) + 1 - i]] ELSE s
Big == 33554432
Tame(x) == \A k \in DOMAIN x.st : Fin(x.st[k]) => x.st[k] < Big /\ -x.st[k] < Big
Per(z) == Pick(<<2, 2, 2, 2, 4, 4, 8, 1, 0>>)
\* a command for every joint at most, one of the three kinds
OnePer(c) == LET one(j) == Filter(j.cmd, PVA)
                 f[k \in 0..Len(c.joints)] == IF k = 0 THEN <<>> ELSE LET o == one(c.joints[k]) IN IF o = <<>> \/ P(25) THEN f[k - 1] ELSE Append(f[k - 1], Key(c.joints[k].n, Pick(o)))
             IN f[Len(c.joints)]
Req(x, op) == [op |-> op, start |-> IF P(65) THEN OnePer(x.c) ELSE Swap(Some(KeySeq(x.c), 40)), stop |-> IF P(70) THEN <<>> ELSE Some(KeySeq(x.c), 20)]
Val(k, x) == IF k \in BoolKeys(x.c) THEN Pick(<<0, One>>) ELSE LET r == Rnd(1..100) IN IF r <= 2 THEN Inf ELSE IF r = 3 THEN NInf ELSE IF r <= 12 THEN NaN ELSE Rnd(-6..6) * 1024
Op(x) ==
  LET r == Rnd(1..100) IN
  CASE ~Tame(x) \/ x.life = "finalized" -> Conf(0)
    [] x.life = "unconfigured" -> [op |-> "LIFE", to |-> IF P(60) THEN "active" ELSE "inactive"]
    [] r <= 35 /\ DOMAIN x.cm # {} -> LET k == Rnd(DOMAIN x.cm) IN [op |-> "SETC", k |-> k, v |-> Val(k, x)]
    [] r > 35 /\ r <= 72 -> [op |-> "READ", q |-> Per(0)]
    [] r > 72 /\ r <= 75 -> [op |-> "WRITE", q |-> Per(0)]
    [] r > 75 /\ r <= 82 /\ x.life = "active" -> Req(x, "PREP")
    [] r > 82 /\ r <= 90 /\ x.life = "active" -> LET o == TLCEval(Req(x, "PERF")) IN IF Accepts(x.c, Range(o.start)) THEN o ELSE [o EXCEPT !.op = "PREP"]
    [] r > 90 /\ r <= 94 -> [op |-> "LIFE", to |-> Pick(<<"active", "inactive", "unconfigured">>)]
    [] r = 95 -> Conf(0)
    [] OTHER -> [op |-> "READ", q |-> Per(0)]
Init == hist = <<>> /\ w = World0
Next == \E o \in {TLCEval(IF hist = <<>> THEN [op |-> "RESET"] ELSE IF ~w.ready THEN Conf(0) ELSE Op(w))} : hist' = Append(hist, o) /\ w' = Do(w, o)
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE TRGen -------------------------------
EXTENDS TR, Json
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(n) == Rnd(1..100) <= n
Red(z) == IF P(4) THEN 0 ELSE Pick(<<1, 2, 4, 8, 8, 16, 32, 64, -1, -2, -4, -8, -16, -64>>)
Good(z) == Pick(<<1, 2, 4, 8, 8, 16, 32, 64, -1, -2, -4, -8, -16, -64>>)
Off(z) == Pick(<<0, 0, 4096, -2048, 6144, -12288>>)
Val(z) == IF P(4) THEN NaN ELSE 2048 * Rnd(-20..20)
Vals(n) == [k \in 1..n |-> Val(k)]
Type(z) == Pick(<<"simple", "differential", "fourbar">>)
New0(t) ==
  LET n(z) == IF t # "simple" /\ P(3) THEN Rnd(0..3) ELSE Size(t) IN
  LET a == n(1)  b == n(2)  c == n(3) IN
  [op |-> "NEW", t |-> t, ar |-> IF t = "simple" THEN <<8>> ELSE [k \in 1..a |-> Red(k)], jr |-> [k \in 1..b |-> Red(k)],
   off |-> [k \in 1..c |-> Off(k)]]
\* names in the order of the description
Two(z) == Pick(<<<<1, 2>>, <<1, 2>>, <<3, 7>>, <<2, 1>>, <<9, 4>>>>)
Part(n) == [n |-> n, r |-> Red(n), o |-> Off(n), no |-> P(15), txt |-> P(5)]
\* where the description gives no number the defaults hold
Fill(p) == [p EXCEPT !.r = IF p.no \/ p.txt THEN 8 ELSE p.r, !.o = IF p.no THEN 0 ELSE p.o]
Parts(t) ==
  LET s == Two(0)
      k == IF P(90) THEN Size(t) ELSE Rnd(0..3)
  IN [m \in 1..k |-> Fill(Part(IF m > 2 THEN 8 ELSE s[m]))]
Load(t) ==
  [op |-> "LOAD", t |-> t, js |-> Parts(t), as |-> Parts(t), how |-> Pick(<<"urdf", "urdf", "struct">>), flaw |-> "", mix |-> Rnd(0..2)]
Flawed(o) == IF o.how = "urdf" /\ P(6) /\ o.js # <<>> THEN [o EXCEPT !.flaw = Pick(<<"role", "name", "plugin", "unknown">>)] ELSE o
-----------------------------------------------------------------------------
Insert(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Shuffle(_, _)
Shuffle(s, acc) == IF s = <<>> THEN acc ELSE LET k == Rnd(0..Len(acc)) IN Shuffle(Tail(s), Insert(acc, k, s[1]))
H(n, i) == [n |-> n, i |-> i, ok |-> TRUE]
RECURSIVE All(_, _)
All(ns, qs) == IF qs = <<>> THEN <<>> ELSE [k \in DOMAIN ns |-> H(ns[k], qs[1])] \o All(ns, Tail(qs))
Mar(s, ns) ==
  LET k == Rnd(1..100) m == Rnd(1..(Len(s) + 1)) IN
  IF s = <<>> THEN s
  ELSE IF k <= 8 THEN [s EXCEPT ![IF m > Len(s) THEN 1 ELSE m].ok = FALSE]
  ELSE IF k <= 15 THEN SubSeq(s, 1, Len(s) - 1)
  ELSE IF k <= 22 THEN Append(s, s[1])
  ELSE IF k <= 27 THEN Append(s, H(Pick(<<1, 5, 9>>), "position"))
  ELSE IF k <= 34 THEN [s EXCEPT ![IF m > Len(s) THEN 1 ELSE m] = s[1]]
  ELSE IF k <= 38 THEN [s EXCEPT ![IF m > Len(s) THEN 1 ELSE m].n = Pick(<<1, 2, 6>>)]
  ELSE s
QSeqs == <<<<"position">>, <<"velocity">>, <<"effort">>, <<"torque">>, <<"force">>, <<"absolute_position">>, <<"position", "velocity">>,
           <<"position", "velocity", "effort">>, <<"velocity", "force">>, <<"torque", "absolute_position">>, <<"effort", "position">>,
           <<"position", "velocity", "effort", "torque", "force", "absolute_position">>, <<"other", "position">>, <<"other">>>>
Mostly(m, ns, x) == IF P(m) THEN x ELSE Mar(x, ns)
Conf(x) ==
  LET t == x.g.type
      jn == IF x.jn # <<>> THEN x.jn ELSE SubSeq(Two(1), 1, Size(t))
      an == IF x.an # <<>> THEN x.an ELSE SubSeq(Two(2), 1, Size(t))
      q1 == Pick(QSeqs)
      q2 == IF P(75) THEN q1 ELSE Pick(QSeqs)
      j == Mostly(60, jn, Shuffle(All(jn, q1), <<>>))
      a == Mostly(60, an, Shuffle(All(an, q2), <<>>))
      jh == IF P(1) THEN <<>> ELSE Mostly(80, jn, j)
      ah == IF P(1) THEN <<>> ELSE Mostly(80, an, a)
  IN [op |-> "CONF", jh |-> jh, ah |-> ah, jv |-> Vals(Len(jh)), av |-> Vals(Len(ah))]
Op(x) ==
  LET k == Rnd(1..100) IN
  IF ~x.has \/ k <= 8 THEN IF P(50) THEN New0(Type(0)) ELSE Flawed(Load(Type(0)))
  ELSE IF ~x.conf \/ k <= 25 THEN Conf(x)
  ELSE IF k <= 50 THEN [op |-> "SETV", jv |-> Vals(Len(x.jv)), av |-> Vals(Len(x.av))]
  ELSE IF k <= 75 THEN [op |-> "A2J"] ELSE [op |-> "J2A"]
Init == hist = <<>> /\ w = World0
Next ==
  IF hist = <<>> THEN hist' = <<[op |-> "RESET"]>> /\ w' = World0
  ELSE \E o \in {TLCEval(Op(w))} :
         /\ hist' = Append(hist, o)
         /\ w' = Do(w, o)
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

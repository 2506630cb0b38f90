------------------------------- MODULE RLGen -------------------------------
(* Random robots with limits and random commands, as scripts.               *)
EXTENDS RL, Json
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>

G == 16384       \* grid: 1/64
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(x) == Rnd(1..100) <= x
Let1(v, F(_)) == F(v)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Tag(q, z) ==
  LET big == Rnd(8..300) * G small == Rnd(8..300) * G IN
  [q |-> q, en |-> P(85),
   min |-> IF P(55) THEN <<>> ELSE <<-big>>,
   max |-> IF P(50) THEN <<>> ELSE <<small>>]
Chain(z) == Pick(<<<<"p">>, <<"p", "v">>, <<"v", "p">>, <<"v">>, <<"e">>, <<"p", "v", "e">>, <<"p", "v", "e", "a", "j">>, <<"a", "v">>, <<"a", "p">>, <<"v", "e", "x">>>>)
RandJ(n, c, type, qs, z) ==
  [n |-> IF type = "gpio" THEN "g" \o n ELSE n, c |-> c, type |-> type,
   base |-> IF type = "gpio" \/ (type = "continuous" /\ P(40)) THEN <<>>
            ELSE <<[lo |-> -Rnd(16..256) * G, hi |-> Rnd(16..256) * G, v |-> Rnd(8..300) * G, e |-> Rnd(8..200) * G]>>,
   soft |-> IF type = "gpio" \/ P(55) THEN <<>>
            ELSE <<[lo |-> -Rnd(4..200) * G, hi |-> Rnd(4..200) * G, k |-> Pick(<<0, 1, 2, 4, 8, 16>>), kv |-> Pick(<<0, 1, 2, 4, 8>>)]>>,
   en |-> P(88),
   cmd |-> [k \in DOMAIN qs |-> TLCEval(Tag(qs[k], 0))],
   st |-> Pick(<<<<"p", "v">>, <<"p", "v">>, <<"p", "v", "e", "a">>, <<"p">>, <<"v">>, <<>>>>)]
Comp(k) == IF k = 2 THEN "c2" ELSE "c1"
Types(k) == IF k = 2 THEN <<"revolute", "continuous">> ELSE <<"revolute", "revolute", "revolute", "continuous", "gpio">>
NewOp(ns, js) ==
  [op |-> "NEW", rate |-> Pick(<<1, 2, 4, 8, 8, 8>>), imp |-> P(92),
   comps |-> IF Len(ns) = 1 THEN <<[n |-> "c1", t |-> "system"]>>
             ELSE <<[n |-> "c1", t |-> "system"], [n |-> "c2", t |-> "actuator"]>>,
   joints |-> js]

HasQ(x, q) == q \in DOMAIN x.cmd
Lim(x) == IF x.lim = <<>> THEN [NoLimits EXCEPT !.lo = -64 * G, !.hi = 64 * G, !.v = 64 * G, !.e = 64 * G, !.a = 64 * G] ELSE x.lim[1].L
Fin(a, d) == IF Abs(a) >= INF THEN d ELSE a
Soft(x) == IF x.lim = <<>> THEN [has |-> FALSE, lo |-> 0, hi |-> 0] ELSE x.lim[1].S
ActP(x, z) ==
  LET L == Lim(x) S == Soft(x) IN
  IF P(4) THEN NAN
  ELSE IF HasQ(x, "p") /\ x.cmd["p"] # NAN /\ P(55) THEN x.cmd["p"] + Rnd((-3)..3) * G
  ELSE IF P(70) THEN Rnd((-60)..60) * G
  ELSE Pick(<<Fin(L.lo, 0), Fin(L.hi, 0), IF S.has THEN S.lo ELSE 0, IF S.has THEN S.hi ELSE 0>>)
       + Pick(<<0, 0, 1000, -1000, 2090, -2090, 2105, -2105, 5000, -5000, 9115, -9115, G, -G>>)
       + (IF P(10) THEN Pick(<<9130, -9130, 2 * G, -2 * G>>) ELSE 0)
ActV(x, z) ==
  LET L == Lim(x) IN
  IF P(4) THEN NAN ELSE IF P(50) THEN Rnd((-8)..8) * G ELSE IF P(70) THEN Rnd((-200)..200) * G
  ELSE Pick(<<Fin(L.v, G), -Fin(L.v, G), Fin(L.v, G) + G, 0>>)
Des(x, q, z) ==
  LET L == Lim(x) m == Fin(CASE q = "p" -> IF P(50) THEN L.lo ELSE L.hi [] q = "v" -> L.v [] q = "e" -> L.e [] OTHER -> IF P(50) THEN L.a ELSE L.d, 64 * G) IN
  IF P(5) THEN NAN
  ELSE IF x.cmd[q] # NAN /\ P(45) THEN x.cmd[q] + Pick(<<0, 1, 2, -1, -2, 8, -8, 40, -40, 100, -100>>) * G
  ELSE IF P(50) THEN Pick(<<m, -m, m + G, -m - G, 0>>) ELSE Rnd((-320)..320) * G

Own(x) == x.own
Owned == {<<n, q>> : n \in DOMAIN w.J, q \in Q \cup {"x"}}
Mine == {p \in Owned : p[2] \in w.J[p[1]].own}
Free0 == {p \in Owned : p[2] \in DOMAIN w.J[p[1]].cmd /\ p[2] \notin w.J[p[1]].own}
Do(o, ww) == hist' = Append(hist, o) /\ w' = ww
Claim == \E p \in {Rnd(Free0)} :
  Do([op |-> "CLAIM", n |-> p[1], q |-> p[2]], [w EXCEPT !.J[p[1]].own = @ \cup {p[2]}])
Release == \E p \in {Rnd(Mine)} :
  Do([op |-> "RELEASE", n |-> p[1], q |-> p[2]], [w EXCEPT !.J[p[1]].own = @ \ {p[2]}])
Set == \E p \in {Rnd(Mine)} : \E v \in {TLCEval(Des(w.J[p[1]], p[2], 0))} :
  Do([op |-> "SETC", n |-> p[1], q |-> p[2], v |-> v], [w EXCEPT !.J[p[1]] = SetC(w, p[1], p[2], v, FALSE).x])
Vals(x) == [q \in DOMAIN x.st |-> CASE q = "p" -> ActP(x, 0) [] q = "v" -> ActV(x, 0) [] OTHER -> Rnd((-9)..9) * G]
Read == \E v \in {TLCEval([n \in {n \in DOMAIN w.J : DOMAIN w.J[n].st # {}} |-> TLCEval(Vals(w.J[n]))])} :
  Do([op |-> "READ", v |-> v], [w EXCEPT !.J = [n \in DOMAIN @ |-> IF n \in DOMAIN v THEN [@[n] EXCEPT !.st = v[n]] ELSE @[n]]])
Enforce1 == \E dn \in {Pick(<<8, 4, 2, 1, 1, 1, w.rate, w.rate, 0>>)} :
  LET throws == dn > 0 /\ \E n \in DOMAIN w.J : Enf(w.J[n], dn, FALSE).threw IN
  Do([op |-> "ENF", dn |-> dn], IF throws THEN w ELSE [w EXCEPT !.J = [n \in DOMAIN @ |-> Enf(@[n], dn, FALSE).x]])
All == {p \in Owned : p[2] \in DOMAIN w.J[p[1]].cmd}
Perf == \E p \in {Rnd(All)} : \E f \in {Rnd(1..10)} :
  LET it == [n |-> p[1], q |-> p[2]]
      c == (CHOOSE j \in Range(hist[1].joints) : j.n = p[1]).c
      out == IF f = 1 THEN [k \in {c \o ".perform"} |-> "E"] ELSE IF f = 2 THEN [k \in {c \o ".prepare"} |-> "E"] ELSE <<>>
      ok == out = <<>> IN
  Do([op |-> "PERF", a |-> IF f > 6 THEN <<it>> ELSE <<>>, b |-> IF f <= 6 THEN <<it>> ELSE <<>>, out |-> out],
     IF ok THEN [w EXCEPT !.J = [n \in DOMAIN @ |-> Forget(@[n])]] ELSE w)
Work == \E r \in {Rnd(1..100)} :
  IF Mine = {} \/ (r <= 10 /\ Free0 # {}) THEN (IF Free0 = {} THEN Read ELSE Claim)
  ELSE IF r <= 13 THEN Release
  ELSE IF r <= 33 THEN Read
  ELSE IF r <= 41 THEN Perf
  ELSE IF r <= 68 THEN Enforce1
  ELSE Set
Begin ==
  \E ns \in {TLCEval(Pick(<<<<"j1">>, <<"j1", "j2">>, <<"j1", "j2">>, <<"j1", "j2", "j3">>>>))} :
  \E ts \in {TLCEval([k \in DOMAIN ns |-> Pick(Types(k))])}, qs \in {TLCEval([k \in DOMAIN ns |-> Chain(k)])} :
  \E js \in {TLCEval([k \in DOMAIN ns |-> RandJ(ns[k], Comp(k), ts[k], qs[k], k)])} :
  \E o \in {TLCEval(NewOp(ns, js))} : hist' = <<o>> /\ w' = New(o)
Init == hist = <<>> /\ w = 0
Next == IF hist = <<>> THEN Begin ELSE Work
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE TRAJGen ------------------------------
(* Random sequences of trajectory points, as scripts for the driver.        *)
EXTENDS TRAJ, Json, FiniteSets
CONSTANTS D
VARIABLES Ls, hist
vars == <<Ls, hist>>

Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(x) == Rnd(1..100) <= x
RandL(z) == [hp |-> P(70), lo |-> -Rnd(0..48), hi |-> Rnd(1..48), hv |-> P(70), v |-> Rnd(4..64),
             ha |-> P(60), a |-> Pick(<<2, 4, 8, 16, 32, 64, 256>>), hd |-> P(50), d |-> Pick(<<2, 4, 8, 16, 32, 64, 256>>)]
Begin == \E n \in {Pick(<<1, 1, 2, 3>>)} : \E L \in {TLCEval([i \in 1..n |-> RandL(i)])} :
  Ls' = L /\ hist' = <<[op |-> "TNEW", L |-> L]>>
\* sizes: as many as joints, none, and now and then a wrong number
Size(n, x) == IF P(x) THEN n ELSE IF P(85) THEN 0 ELSE Pick(<<n - 1, n + 1>>)
One(L, s) == IF P(30) THEN Pick(<<L.lo, L.hi, L.lo + s, L.hi - s, L.lo - s, L.hi + s>>) ELSE Rnd((-60)..60)
Near(L, q) == IF P(10) THEN 0 ELSE IF P(40) THEN Pick(<<q, -q, q - 1, q + 1, 1 - q, -q - 1>>) ELSE Rnd((-(2 * q))..(2 * q))
Enf(z) ==
  LET n == Len(Ls)  dn == Pick(<<1, 2, 4, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 0>>)
      ap == TLCEval([i \in 1..(n + 1) |-> LET L == Ls[IF i > n THEN n ELSE i] IN IF P(85) THEN Rnd(L.lo..L.hi) ELSE One(L, 1)])
      av == TLCEval([i \in 1..(n + 1) |-> LET L == Ls[IF i > n THEN n ELSE i] IN IF P(20) THEN 0 ELSE Near(L, L.v)])
      v == TLCEval([i \in 1..(n + 1) |-> LET L == Ls[IF i > n THEN n ELSE i] IN
             IF P(15) THEN 0 ELSE IF P(50) THEN av[i] + Rnd((-8)..8) ELSE Near(L, L.v)])
      fit == P(60)
      p == TLCEval([i \in 1..(n + 1) |-> LET L == Ls[IF i > n THEN n ELSE i] IN
             IF fit THEN ap[i] + v[i] \div (IF dn > 0 THEN dn ELSE 1) ELSE IF P(50) THEN ap[i] + Rnd((-6)..6) ELSE One(L, 1)])
      a == TLCEval([i \in 1..(n + 1) |-> LET L == Ls[IF i > n THEN n ELSE i] IN
             IF fit THEN (v[i] - av[i]) * dn ELSE Near(L, IF P(50) THEN L.a ELSE L.d)])
      cut(s, m) == [i \in 1..m |-> s[i]] IN
  [op |-> "TENF", dn |-> dn, ap |-> cut(ap, Size(n, 97)), av |-> cut(av, Size(n, 70)),
   p |-> cut(p, Size(n, 65)), v |-> cut(v, Size(n, 70)), a |-> cut(a, Size(n, 40))]
Work == \E o \in {TLCEval(Enf(0))} : hist' = Append(hist, o) /\ UNCHANGED Ls
Init == hist = <<>> /\ Ls = <<>>
Next == IF hist = <<>> THEN Begin ELSE Work
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE TRSET -------------------------------
(* Which handle sets are accepted does not depend on their order, nor does  *)
(* what is bound to which role; an accepted set maps some quantity          *)
(* completely.                                                              *)
EXTENDS TR
CONSTANTS Most, Ns, Is
VARIABLES t, jh, ah, done
vars == <<t, jh, ah, done>>
Handles == [n : Ns, i : Is, ok : BOOLEAN]
Init == t \in {"simple", "differential", "fourbar"} /\ jh = <<>> /\ ah \in {<<[n |-> a, i |-> i, ok |-> TRUE], [n |-> b, i |-> i, ok |-> TRUE]>> : a, b \in {1, 2}, i \in Is} /\ done = FALSE
Next == ~done /\ Len(jh) < Most /\ (\E h \in Handles : jh' = Append(jh, h)) /\ UNCHANGED <<t, ah, done>>
Spec == Init /\ [][Next]_vars
Swap(s, k) == [m \in DOMAIN s |-> IF m = k THEN s[k + 1] ELSE IF m = k + 1 THEN s[k] ELSE s[m]]
\* with several handles for one value the first counts
Distinct(s) == \A a, b \in DOMAIN s : a # b => s[a].n # s[b].n \/ s[a].i # s[b].i
Ns1 == InOrder(Names(jh))
Claims ==
  /\ Accepts(t, jh, ah) =>
       /\ Cardinality(Names(jh)) = Size(t)
       /\ \E q \in Supported(t) : \A n \in Names(jh) : \E k \in DOMAIN jh : jh[k] = [n |-> n, i |-> q, ok |-> TRUE]
  /\ \A k \in 1..(Len(jh) - 1) : Distinct(jh) =>
       /\ Accepts(t, Swap(jh, k), ah) = Accepts(t, jh, ah)
       /\ Accepts(t, jh, ah) => \A q \in Quantities : LET a == Bound(t, jh, Ns1, q)  b == Bound(t, Swap(jh, k), Ns1, q)
                                IN \A m \in DOMAIN a : IF a[m] = 0 THEN b[m] = 0 ELSE b[m] > 0 /\ Swap(jh, k)[b[m]] = jh[a[m]]
=============================================================================

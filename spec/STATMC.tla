------------------------------ MODULE STATMC -------------------------------
(* Every history of samples, resets and updates over a few values, against  *)
(* the list of samples itself.                                              *)
EXTENDS STAT, FiniteSets
CONSTANTS Vals, Bias, Most, Wins
VARIABLES w, xs, ds
vars == <<w, xs, ds>>
\* xs: finite samples since the last reset; ds: those that the record stands for
Init == \E k \in Wins : w = New(k) /\ xs = <<>> /\ ds = <<>>
DoAdd == \E x \in {v - Bias : v \in Vals} \cup {NaN, Inf, -Inf} :
  /\ Finite(x) => Len(xs) < Most
  /\ w' = Do(w, [op |-> "ADD", x |-> x])
  /\ xs' = (IF Finite(x) THEN Append(xs, x) ELSE xs) /\ UNCHANGED ds
DoReset == w' = Do(w, [op |-> "RST"]) /\ xs' = <<>> /\ UNCHANGED ds
DoUpdate ==
  /\ w' = Do(w, [op |-> "UPD"])
  /\ ds' = IF xs # <<>> THEN xs ELSE ds
  /\ xs' = IF w.win > 0 /\ Len(xs) >= w.win THEN <<>> ELSE xs
DoClear == w' = Do(w, [op |-> "DRST"]) /\ ds' = <<>> /\ UNCHANGED xs
Next == DoAdd \/ DoReset \/ DoUpdate \/ DoClear
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Rng(s) == {s[i] : i \in DOMAIN s}
Describes(s, l) ==
  /\ s.n = Len(l)
  /\ s.n > 0 => /\ s.S = Sum(l)
                /\ s.mn \in Rng(l) /\ s.mx \in Rng(l)
                /\ \A x \in Rng(l) : s.mn <= x /\ x <= s.mx
                /\ s.n * s.mn <= s.S /\ s.S <= s.n * s.mx
                /\ s.n * (s.n * s.Q - s.S * s.S) = Sum([i \in DOMAIN l |-> (s.n * l[i] - s.S) * (s.n * l[i] - s.S)])
Inv == Describes(w.s, xs) /\ Describes(w.d, ds)
=============================================================================

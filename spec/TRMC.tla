------------------------------- MODULE TRMC -------------------------------
(* What T01 and T02 claim, on the maps and rules of TR.                      *)
EXTENDS TR
CONSTANTS Rs, Offs, Vals, Types
VARIABLES phase, g, q, v, u
vars == <<phase, g, q, v, u>>
Neg(S) == S \cup {-x : x \in S}
Vec(t, S) == [1..Size(t) -> S]
Init == /\ phase = "maps" /\ q = "" /\ v = <<>> /\ u = <<>>
        /\ \E t \in Types : \E ar \in IF t = "simple" THEN {<<8>>} ELSE Vec(t, Neg(Rs)) : \E jr \in Vec(t, Neg(Rs)) : \E off \in Vec(t, Neg(Offs)) :
             g = [type |-> t, ar |-> ar, jr |-> jr, off |-> off]
Next == phase = "maps" /\ phase' = "done" /\ q' \in Supported(g.type) /\ v' \in Vec(g.type, Neg(Vals)) /\ u' \in Vec(g.type, Neg(Vals)) /\ g' = g
Spec == Init /\ [][Next]_vars
\* sums of products of efforts and velocities
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE a[1] * b[1] + Dot(Tail(a), Tail(b))
Exact(a) == \A k \in DOMAIN a : a[k] % 2 = 0
Claims ==
  phase = "done" =>
    /\ Back(q) => ToActuator(g, q, ToJoint(g, q, v)) = v /\ ToJoint(g, q, ToActuator(g, q, v)) = v
    /\ ToJoint(g, "absolute_position", v) = ToJoint(g, "position", v)
    /\ Dot(ToJoint(g, "effort", u), ToJoint(g, "velocity", v)) = Dot(u, v)
    /\ Dot(ToActuator(g, "effort", u), ToActuator(g, "velocity", v)) = Dot(u, v)
    /\ Exact(ToJoint(g, q, v)) /\ Exact(ToActuator(g, q, v))
=============================================================================

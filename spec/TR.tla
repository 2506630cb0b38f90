-------------------------------- MODULE TR --------------------------------
(* Transmissions: which are accepted, and what they map onto what.          *)
(* Values are integers in units of 1/4096, reductions in units of 1/8 (all  *)
(* powers of two, so that the maps are exact); joints and actuators are     *)
(* named by numbers in the order of their names.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NaN == 2000000000
Quantities == {"position", "velocity", "effort", "torque", "force", "absolute_position"}
Like(q) == IF q \in {"torque", "force"} THEN "effort" ELSE q
Supported(t) == IF t = "fourbar" THEN {"position", "velocity", "effort"} ELSE Quantities
\* which quantities go from joints to actuators as well
Back(q) == q # "absolute_position"
Size(t) == IF t = "simple" THEN 1 ELSE 2

Mul(x, r) == IF x = NaN THEN NaN ELSE (x * r) \div 8
Div(x, r) == IF x = NaN THEN NaN
             ELSE IF r < 0 THEN (-(x * 8)) \div (-r) ELSE (x * 8) \div r
Plus(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE x + y
Minus(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE x - y
Half(x) == IF x = NaN THEN NaN ELSE x \div 2

-----------------------------------------------------------------------------
(* the maps; g: [type, ar, jr, off], v: values of the other side            *)
ToJoint(g, q, a) ==
  LET ar == g.ar  jr == g.jr  kind == Like(q)
      off(k) == IF kind \in {"position", "absolute_position"} THEN g.off[k] ELSE 0
  IN CASE g.type = "simple" /\ kind = "effort" -> <<Mul(a[1], jr[1])>>
       [] g.type = "simple" /\ kind # "effort" -> <<Plus(Div(a[1], jr[1]), off(1))>>
       [] g.type = "differential" /\ kind = "effort" ->
            LET x == Mul(a[1], ar[1])  y == Mul(a[2], ar[2]) IN <<Mul(Plus(x, y), jr[1]), Mul(Minus(x, y), jr[2])>>
       [] g.type = "differential" /\ kind # "effort" ->
            LET x == Div(a[1], ar[1])  y == Div(a[2], ar[2])
            IN <<Plus(Half(Div(Plus(x, y), jr[1])), off(1)), Plus(Half(Div(Minus(x, y), jr[2])), off(2))>>
       [] g.type = "fourbar" /\ kind = "effort" ->
            LET y == Mul(a[2], ar[2]) IN <<Plus(Mul(Mul(a[1], ar[1]), jr[1]), y), Mul(y, jr[2])>>
       [] g.type = "fourbar" /\ kind # "effort" ->
            LET x == Div(Div(a[1], jr[1]), ar[1]) IN <<Plus(x, off(1)), Plus(Div(Minus(Div(a[2], ar[2]), x), jr[2]), off(2))>>
ToActuator(g, q, j) ==
  LET ar == g.ar  jr == g.jr  kind == Like(q)
      x(k) == IF kind = "position" THEN Minus(j[k], g.off[k]) ELSE j[k]
  IN CASE g.type = "simple" /\ kind = "effort" -> <<Div(j[1], jr[1])>>
       [] g.type = "simple" /\ kind # "effort" -> <<Mul(x(1), jr[1])>>
       [] g.type = "differential" /\ kind = "effort" ->
            LET a == Div(j[1], jr[1])  b == Div(j[2], jr[2]) IN <<Half(Div(Plus(a, b), ar[1])), Half(Div(Minus(a, b), ar[2]))>>
       [] g.type = "differential" /\ kind # "effort" ->
            LET a == Mul(x(1), jr[1])  b == Mul(x(2), jr[2]) IN <<Mul(Plus(a, b), ar[1]), Mul(Minus(a, b), ar[2])>>
       [] g.type = "fourbar" /\ kind = "effort" ->
            LET b == Div(j[2], jr[2]) IN <<Div(Div(Minus(j[1], b), jr[1]), ar[1]), Div(b, ar[2])>>
       [] g.type = "fourbar" /\ kind # "effort" ->
            <<Mul(Mul(x(1), jr[1]), ar[1]), Mul(Plus(x(1), Mul(x(2), jr[2])), ar[2])>>

-----------------------------------------------------------------------------
(* handles: [n: name, i: quantity, ok: refers to a value]                   *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Names(hs) == {hs[k].n : k \in DOMAIN hs}
InOrder(S) == IF Cardinality(S) = 1 THEN <<Least(S)>> ELSE LET a == Least(S) IN <<a, Least(S \ {a})>>
\* position of the handle of a name and quantity, 0 if there is none
Find(t, hs, n, q) ==
  LET all == {k \in DOMAIN hs : hs[k].n = n /\ hs[k].i = q}
      valid == {k \in all : hs[k].ok}
      S == IF t = "simple" THEN (IF all # {} /\ Least(all) \in valid THEN {Least(all)} ELSE {}) ELSE valid
  IN IF S = {} THEN 0 ELSE Least(S)
\* handles of a quantity, in the order of the roles
Bound(t, hs, ns, q) == [k \in DOMAIN ns |-> Find(t, hs, ns[k], q)]
Full(b) == \A k \in DOMAIN b : b[k] > 0
Void(b) == \A k \in DOMAIN b : b[k] = 0
Accepts(t, jh, ah) ==
  /\ Cardinality(Names(jh)) = Size(t) /\ Cardinality(Names(ah)) = Size(t)
  /\ LET J(q) == Bound(t, jh, InOrder(Names(jh)), q)
         A(q) == Bound(t, ah, InOrder(Names(ah)), q)
     IN /\ \E q \in Supported(t) : Full(J(q)) /\ Full(A(q))
        /\ t = "differential" => \A q \in Quantities : (Full(J(q)) \/ Void(J(q))) /\ (Full(A(q)) \/ Void(A(q)))

-----------------------------------------------------------------------------
(* the world: the transmission and the values its handles refer to          *)
World0 == [has |-> FALSE, g |-> 0, jn |-> <<>>, an |-> <<>>, conf |-> FALSE, jh |-> <<>>, ah |-> <<>>, jv |-> <<>>, av |-> <<>>]
Dim(t, o) == t # "simple" => Len(o.ar) = 2 /\ Len(o.jr) = 2 /\ Len(o.off) = 2
NonZero(s) == \A k \in DOMAIN s : s[k] # 0
\* description: [t, js, as]; js[k] = [n, r, o], r = 8 and o = 0 where the description gives none
Loadable(o) ==
  IF o.t = "simple" THEN Len(o.js) >= 1 /\ o.js[1].r # 0
  ELSE Len(o.js) >= 2 /\ Len(o.as) >= 2 /\ o.js[1].r # 0 /\ o.js[2].r # 0 /\ o.as[1].r # 0 /\ o.as[2].r # 0
Up(s, n) == [k \in 1..n |-> s[k]]
Geometry(o) ==
  LET n == Size(o.t) IN
  [type |-> o.t, jr |-> [k \in 1..n |-> o.js[k].r], off |-> [k \in 1..n |-> o.js[k].o],
   ar |-> IF n = 1 THEN <<8>> ELSE [k \in 1..n |-> o.as[k].r]]
Res(w, o) ==
  CASE o.op = "NEW" -> IF Dim(o.t, o) /\ NonZero(o.ar) /\ NonZero(o.jr) THEN "OK" ELSE "THROW"
    [] o.op = "LOAD" -> IF o.flaw # "" THEN "THROW" ELSE IF Loadable(o) THEN "OK" ELSE "NULL"
    [] o.op = "CONF" -> IF ~w.has THEN "NONE" ELSE IF Accepts(w.g.type, o.jh, o.ah) THEN "OK" ELSE "THROW"
    [] OTHER -> IF w.has THEN "OK" ELSE "NONE"
\* names in the order of the roles; without a description, in the order of the names
Roles(desc, hs) == IF desc # <<>> /\ Names(hs) = {desc[k] : k \in DOMAIN desc} THEN desc ELSE InOrder(Names(hs))
Mapped(w) == {q \in Supported(w.g.type) : Full(Bound(w.g.type, w.jh, Roles(w.jn, w.jh), q)) /\ Full(Bound(w.g.type, w.ah, Roles(w.an, w.ah), q))}
At(vs, b) == [k \in DOMAIN b |-> vs[b[k]]]
\* vs with the entries given by bindings and results of all quantities of qs
Put(vs, b(_), new(_), qs) ==
  [k \in DOMAIN vs |->
    LET hit == {q \in qs : \E m \in DOMAIN b(q) : b(q)[m] = k}
    IN IF hit = {} THEN vs[k]
       ELSE LET q == CHOOSE x \in hit : TRUE  m == CHOOSE y \in DOMAIN b(q) : b(q)[y] = k IN new(q)[m]]
Do(w, o) ==
  CASE o.op = "NEW" -> IF Res(w, o) # "OK" THEN World0
                       ELSE [World0 EXCEPT !.has = TRUE, !.g = [type |-> o.t, ar |-> o.ar, jr |-> o.jr, off |-> o.off]]
    [] o.op = "LOAD" -> IF Res(w, o) # "OK" THEN World0
                        ELSE [World0 EXCEPT !.has = TRUE, !.g = Geometry(o),
                               !.jn = IF Len(o.js) = Size(o.t) THEN [k \in DOMAIN o.js |-> o.js[k].n] ELSE <<>>,
                               !.an = IF Len(o.as) = Size(o.t) THEN [k \in DOMAIN o.as |-> o.as[k].n] ELSE <<>>]
    [] o.op = "CONF" -> IF ~w.has THEN w
                        ELSE [w EXCEPT !.conf = Res(w, o) = "OK", !.jh = o.jh, !.ah = o.ah, !.jv = o.jv, !.av = o.av]
    [] o.op = "SETV" -> [w EXCEPT !.jv = [k \in DOMAIN w.jv |-> o.jv[k]], !.av = [k \in DOMAIN w.av |-> o.av[k]]]
    [] o.op = "A2J" /\ w.conf ->
         LET JB(q) == Bound(w.g.type, w.jh, Roles(w.jn, w.jh), q)
             AB(q) == Bound(w.g.type, w.ah, Roles(w.an, w.ah), q)
             V(q) == ToJoint(w.g, q, At(w.av, AB(q)))
         IN [w EXCEPT !.jv = Put(w.jv, JB, V, Mapped(w))]
    [] o.op = "J2A" /\ w.conf ->
         LET JB(q) == Bound(w.g.type, w.jh, Roles(w.jn, w.jh), q)
             AB(q) == Bound(w.g.type, w.ah, Roles(w.an, w.ah), q)
             V(q) == ToActuator(w.g, q, At(w.jv, JB(q)))
         IN [w EXCEPT !.av = Put(w.av, AB, V, {q \in Mapped(w) : Back(q)})]
    [] OTHER -> w
=============================================================================

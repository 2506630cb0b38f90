-------------------------------- MODULE RLMC -------------------------------
(* Exhaustive exploration of the limits of one joint on a small grid: every *)
(* description (kinematic limits, tags, switches), every measured state and *)
(* every sequence of commands through the loans and by the control loop.    *)
EXTENDS RL
CONSTANTS Full

VARIABLES d, w
vars == <<d, w>>
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
AllTags(q) == {[q |-> q, en |-> en, min |-> mi, max |-> ma] : en \in BOOLEAN, mi \in Opt({-1}), ma \in Opt({1})}
Tags(q) == IF Full \/ q = "p" THEN AllTags(q) ELSE {t \in AllTags(q) : t.min = <<>> /\ (t.en \/ t.max # <<>>)}
Joints == {[n |-> "j", type |-> ty, base |-> b, soft |-> s, en |-> en, st |-> <<"p", "v">>, cmd |-> cmd] :
   ty \in {"revolute", "continuous", "gpio"},
   b \in {<<>>, <<[lo |-> -2, hi |-> 2, v |-> 2, e |-> 2]>>}, s \in {<<>>, <<[lo |-> -1, hi |-> 2, k |-> 2, kv |-> 2]>>}, en \in BOOLEAN,
   cmd \in {<<a, b2>> : a \in Tags("p"), b2 \in Tags("v")} \cup (IF Full THEN {<<a, b2>> : a \in AllTags("v"), b2 \in {t \in AllTags("e") : t.min = <<>>}} ELSE {})}
Sound(j) == (j.type = "revolute" => j.base # <<>>) /\ (j.type = "gpio" => j.base = <<>> /\ j.soft = <<>>)
St == IF Full THEN [p : {-3, 0, 1, NAN}, v : {0, NAN}] ELSE [p : {-3, 1, NAN}, v : {0, NAN}]
Init == \E j \in Joints, imp \in IF Full THEN BOOLEAN ELSE {TRUE} :
  /\ Sound(j) /\ d = [j |-> j, imp |-> imp]
  /\ w = New([rate |-> 1, imp |-> imp, joints |-> <<j>>])
Asks == {-3, 0, 2, NAN}
X == w.J["j"]
Claim == \E q \in DOMAIN X.cmd \ X.own : w' = [w EXCEPT !.J["j"].own = @ \cup {q}]
Measure == \E s \in St : s # X.st /\ w' = [w EXCEPT !.J["j"].st = s]
Set == \E q \in X.own, v \in Asks, z \in BOOLEAN : w' = [w EXCEPT !.J["j"] = SetC(w, "j", q, v, z).x]
Loop == \E z \in BOOLEAN : w' = [w EXCEPT !.J["j"] = Enf(X, 1, z).x]
Reset == w' = [w EXCEPT !.J["j"] = Forget(X)]
Next == (Claim \/ Measure \/ Set \/ Loop \/ Reset) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars

L == X.lim[1].L
In(x, lo, hi) == x # NAN => lo <= x /\ x <= hi
\* the tightest of everything that is switched on holds, whatever was measured; nothing is kept from a joint whose limits are off
Tag(q) == {c \in Range(d.j.cmd) : c.q = q /\ c.en}
OnP == d.j.type # "gpio" /\ d.j.en /\ d.imp /\ \A c \in Range(d.j.cmd) : c.q = "p" => c.en
Hard ==
  /\ (OnP /\ "p" \in DOMAIN X.cmd) =>
       /\ d.j.type = "revolute" => In(X.cmd["p"], d.j.base[1].lo, d.j.base[1].hi)
       /\ \A c \in Tag("p") : /\ c.min # <<>> => In(X.cmd["p"], c.min[1], INF)
                              /\ c.max # <<>> => In(X.cmd["p"], -INF, c.max[1])
  /\ (OnP /\ "e" \in DOMAIN X.cmd /\ Tag("e") # {} /\ d.j.base # <<>>) => In(X.cmd["e"], -d.j.base[1].e, d.j.base[1].e)
\* velocities are taken back only as fast as the acceleration limit allows; there is none here
Vel == (OnP /\ "v" \in DOMAIN X.cmd /\ Tag("v") # {}) =>
         /\ d.j.base # <<>> => In(X.cmd["v"], -d.j.base[1].v, d.j.base[1].v)
         /\ \A c \in Tag("v") : (c.min # <<>> => In(X.cmd["v"], c.min[1], -c.min[1])) /\ (c.max # <<>> => In(X.cmd["v"], -c.max[1], c.max[1]))
\* commands change by claims only, and only limited joints are touched by the loop
Moves == [][/\ \A q \in DOMAIN X.cmd : (X'.cmd[q] # X.cmd[q]) => q \in X.own
            /\ (X.lim = <<>> /\ X'.cmd # X.cmd) => \E q \in X.own, v \in Asks : X'.cmd = [X.cmd EXCEPT ![q] = v]
            /\ (X.cmd # X'.cmd /\ X'.own = X.own) => X'.st = X.st]_vars
View == <<d, [q \in {"p", "v"} |-> IF X.lim = <<>> THEN <<>> ELSE X.lim[1].pc[q]], IF X.lim = <<>> THEN TRUE ELSE X.lim[1].pc = None, X.cmd, X.own, X.st>>
=============================================================================

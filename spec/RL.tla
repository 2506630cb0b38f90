-------------------------------- MODULE RL ---------------------------------
(* Command limits in the resource manager: which limits a joint of a robot  *)
(* description has, and what reaches the hardware when a controller sets a  *)
(* command through its loan and when the control loop enforces the limits.  *)
(* The limiting itself is LIM.                                              *)
(*                                                                          *)
(* Description of a joint j:                                                *)
(*  [n, type (revolute|continuous|gpio), base <<>> or <<[lo, hi, v, e]>>,    *)
(*   soft <<>> or <<[lo, hi, k, kv]>>, en, st: measured quantities,          *)
(*   cmd: <<[q, min <<>>|<<x>>, max, en]>>]                                  *)
EXTENDS LIM, FiniteSets

SQ == {"p", "v", "e", "a"}     \* quantities that have limits
OrElse(o, d) == IF o = <<>> THEN d ELSE o[1]
NoLimits == [hp |-> FALSE, lo |-> -INF, hi |-> INF, hv |-> FALSE, v |-> INF, ha |-> FALSE, a |-> INF,
             hd |-> FALSE, d |-> INF, hj |-> FALSE, j |-> INF, he |-> FALSE, e |-> INF]
\* limits of the kinematic description
Base(j) ==
  IF j.base = <<>> THEN NoLimits
  ELSE LET b == j.base[1] IN
       [NoLimits EXCEPT !.hp = j.type = "revolute", !.lo = IF j.type = "revolute" THEN b.lo ELSE @,
                        !.hi = IF j.type = "revolute" THEN b.hi ELSE @,
                        !.hv = TRUE, !.v = Abs(b.v), !.he = TRUE, !.e = Abs(b.e)]
\* a symmetric limit: the tightest of what is known and the two tags
Sym(has, x, c) ==
  IF c.en /\ (c.min # <<>> \/ c.max # <<>>)
  THEN [has |-> TRUE, x |-> Min(Min(Abs(OrElse(c.min, -x)), OrElse(c.max, x)), x)]
  ELSE [has |-> has /\ c.en, x |-> x]
\* ... tightened by the tags of a command interface
Tighten(L, c) ==
  CASE c.q = "p" ->
         LET lo == IF L.hp /\ c.en THEN L.lo ELSE -INF
             hi == IF L.hp /\ c.en THEN L.hi ELSE INF
             tags == c.en /\ (c.min # <<>> \/ c.max # <<>>) IN
         [L EXCEPT !.lo = IF tags THEN Max(OrElse(c.min, lo), lo) ELSE lo,
                   !.hi = IF tags THEN Min(OrElse(c.max, hi), hi) ELSE hi,
                   !.hp = c.en /\ (@ \/ tags)]
    [] c.q = "v" -> LET s == Sym(L.hv, L.v, c) IN [L EXCEPT !.hv = s.has, !.v = s.x]
    [] c.q = "e" -> LET s == Sym(L.he, L.e, c) IN [L EXCEPT !.he = s.has, !.e = s.x]
    [] c.q = "a" -> [L EXCEPT !.hd = IF c.min # <<>> THEN c.en ELSE @, !.d = IF c.min # <<>> THEN Abs(c.min[1]) ELSE @,
                              !.ha = IF c.max # <<>> THEN c.en ELSE @, !.a = IF c.max # <<>> THEN c.max[1] ELSE @]
    [] OTHER -> L
RECURSIVE TightenAll(_, _)
TightenAll(L, cs) == IF cs = <<>> THEN L ELSE TightenAll(Tighten(L, Head(cs)), Tail(cs))
Limits(j) == TightenAll(Base(j), j.cmd)
SoftOf(j, L) ==
  IF j.soft = <<>> THEN [has |-> FALSE, lo |-> 0, hi |-> 0, k |-> NAN, kv |-> NAN]
  ELSE LET s == j.soft[1] IN
       [has |-> TRUE, lo |-> IF L.hp THEN Max(s.lo, L.lo) ELSE s.lo, hi |-> IF L.hp THEN Min(s.hi, L.hi) ELSE s.hi,
        k |-> s.k, kv |-> s.kv]
\* no limiter for what is not a joint and where the limits are switched off
Limiter(j, imp) ==
  IF ~imp \/ j.type = "gpio" \/ ~j.en THEN <<>>
  ELSE LET L == Limits(j) IN
       <<[kind |-> IF j.soft = <<>> THEN "hard" ELSE "soft", L |-> L, S |-> SoftOf(j, L), pc |-> None]>>

(* State: [rate, J]; J[n]: [lim, cmd: q -> value, st: q -> value, own: set  *)
(* of claimed quantities].                                                  *)
CmdQ(j) == {j.cmd[k].q : k \in DOMAIN j.cmd}
Joint(j, imp) == [lim |-> Limiter(j, imp), cmd |-> [q \in CmdQ(j) |-> NAN],
                  st |-> [q \in {j.st[k] : k \in DOMAIN j.st} |-> NAN], own |-> {}]
Range(s) == {s[k] : k \in DOMAIN s}
New(o) == [rate |-> o.rate,
           J |-> [n \in {j.n : j \in Range(o.joints)} |-> Joint(CHOOSE j \in Range(o.joints) : j.n = n, o.imp)]]
Act(x) == [q \in Q |-> IF q \in SQ /\ q \in DOMAIN x.st THEN <<x.st[q]>> ELSE <<>>]
Asked(x) == [q \in Q |-> IF q \in SQ /\ q \in x.own /\ q \in DOMAIN x.cmd THEN <<x.cmd[q]>> ELSE <<>>]
Only(q, v) == [None EXCEPT ![q] = <<v>>]
Request(x, des, dn) == [act |-> Act(x), des |-> des, dn |-> dn]
\* whether a command goes past the limiter
Limited(x, q) == q \in SQ /\ x.lim # <<>>
\* a command through a loan: only this quantity is limited, for the nominal period
SetC(w, n, q, v, zero) ==
  LET x == w.J[n] IN
  IF ~Limited(x, q) THEN [x |-> [x EXCEPT !.cmd[q] = v], threw |-> FALSE]
  ELSE LET r == Enforce(x.lim[1], Request(x, Only(q, v), w.rate), zero) IN
       [x |-> [x EXCEPT !.lim = <<r.w>>, !.cmd[q] = IF r.threw THEN @ ELSE r.out[q][1]], threw |-> r.threw]
\* the control loop: all claimed quantities of a joint together, for the measured period
Enf(x, dn, zero) ==
  IF x.lim = <<>> THEN [x |-> x, lim |-> FALSE, threw |-> FALSE]
  ELSE LET r == Enforce(x.lim[1], Request(x, Asked(x), dn), zero) IN
       [x |-> [x EXCEPT !.lim = <<r.w>>, !.cmd = [q \in DOMAIN @ |-> IF q \in SQ /\ Has(r.out[q]) /\ ~r.threw THEN r.out[q][1] ELSE @[q]]],
        lim |-> r.lim, threw |-> r.threw]
Forget(x) == IF x.lim = <<>> THEN x ELSE [x EXCEPT !.lim = <<[@[1] EXCEPT !.pc = None]>>]
=============================================================================

-------------------------------- MODULE SPMC --------------------------------
(* Claims about several spawners at once over one controller manager, with   *)
(* refusals, lost answers and interrupts anywhere, checked by TLC.            *)
EXTENDS SP, TLC
CONSTANTS Second, \* the controllers of the second spawner: "apart", "same" or "none"
          Faults, Outs, Starts
VARIABLES w, ps, left, last
vars == <<w, ps, left, last>>
O(ns, lo, ina, group, unl) ==
  [op |-> "SPAWN", ctls |-> [i \in DOMAIN ns |-> [n |-> ns[i], lo |-> i \in lo, ina |-> i \in ina, pf |-> <<>>, ra |-> <<>>]], cm |-> "", group |-> group, unl |-> unl,
   asap |-> "default", to |-> 5, rpf |-> "", ns |-> "/", lockf |-> 0, faults |-> <<>>]
First == {O(<<"c1", "c2">>, lo, ina, g, u) : lo \in {{}, {1}, {2}}, ina \in {{}, {1}, {2}}, g \in BOOLEAN, u \in BOOLEAN}
Others ==
  CASE Second = "none" -> {}
    [] Second = "apart" -> {O(<<"c3">>, {}, {}, FALSE, u) : u \in BOOLEAN}
    [] Second = "same" -> {O(<<"c2", "c3">>, {}, {}, g, u) : g \in BOOLEAN, u \in BOOLEAN}
Procs == DOMAIN ps
Init ==
  /\ w \in [ctl : {[c \in {c \in {"c1", "c2", "c3"} : f[c] # "-"} |-> f[c]] : f \in [{"c1", "c2", "c3"} -> Starts]}, hw : {World0.hw}, par : {<<>>}]
  /\ \E a \in First : IF Others = {} THEN ps = <<Proc(a)>> ELSE \E b \in Others : ps = <<Proc(a), Proc(b)>>
  /\ left = Faults /\ last = [p |-> 0, q |-> [kind |-> ""]]
Clean(m) == [m EXCEPT !.calls = <<>>]
Free(p) == \A q \in Procs \ {p} : ~ps[q].lock
Turn(p) ==
  \/ /\ ps[p].pc \notin Asking \cup {"end"}
     /\ ps[p].pc = "lock" => Free(p)
     /\ ps' = [ps EXCEPT ![p] = Move(@)] /\ last' = [p |-> p, q |-> [kind |-> "move"]] /\ UNCHANGED <<w, left>>
  \/ /\ ps[p].pc \in Asking
     /\ \E out \in {"ok"} \cup (IF left > 0 THEN Outs ELSE {}) :
          \* an interrupt during the taking down is not listened to; a list is never refused
          /\ out \in {"int0", "int1"} => ~ps[p].int
          /\ out = "no" => ps[p].pc \notin {"list", "downlist"}
          /\ LET s == Step(w, ps[p], out) IN w' = s[1] /\ ps' = [ps EXCEPT ![p] = Clean(s[2])]
          /\ left' = IF out = "ok" THEN left ELSE left - 1
          /\ last' = [p |-> p, q |-> Request(ps[p]), out |-> out]
Next == \E p \in Procs : Turn(p)
\* a spawner that waits need not ever be interrupted
Spec == Init /\ [][Next]_vars /\ \A p \in 1..2 : WF_vars(p \in Procs /\ ps[p].pc # "wait" /\ Turn(p))
View == <<w, ps, left>>
Named(m) == {m.o.ctls[i].n : i \in DOMAIN m.o.ctls}
Wanted(m) == {m.o.ctls[i].n : i \in {i \in DOMAIN m.o.ctls : ~m.o.ctls[i].lo /\ ~m.o.ctls[i].ina}}
Met(m) == \A i \in DOMAIN m.o.ctls : LET c == m.o.ctls[i] IN
  At(w, c.n) \in IF c.lo THEN {"U", "I", "A"} ELSE IF c.ina THEN {"I", "A"} ELSE {"A"}
\* ---- claims
OneAtATime == \A p, q \in Procs : ps[p].lock /\ ps[q].lock => p = q
LockedWhileAsking == \A p \in Procs : ps[p].pc \in {"list", "par", "load", "conf", "act", "group"} => ps[p].lock
NoLockWhenWaiting == \A p \in Procs : ps[p].pc \in {"wait", "end"} => ~ps[p].lock
OnlyItsOwn == \A p \in Procs : Range(ps[p].req) \subseteq Wanted(ps[p]) /\ Range(ps[p].down) \subseteq Range(ps[p].req)
\* success means the controllers are as asked, at the time it is reported (another spawner told to stop may take the same ones down meanwhile)
Success == [][\A p \in Procs : (Second # "same" /\ ps[p].pc # "end" /\ ps'[p].pc = "end" /\ ps'[p].res = 0 /\ ~ps'[p].int) => Met(ps[p])']_vars
SuccessNow == \A p \in Procs : (Second # "same" /\ (ps[p].pc = "wait" \/ (ps[p].pc = "end" /\ ps[p].res = 0 /\ ~ps[p].int))) => Met(ps[p])
\* told to stop and successful: what it was to activate is gone
Gone == \A p \in Procs : (Second # "same" /\ ps[p].pc = "end" /\ ps[p].int /\ ps[p].o.unl /\ ps[p].res = 0) => \A c \in Range(ps[p].req) : ~Has(w, c)
\* it never touches controllers that were not named to it
Untouched == [][\A c \in {"c1", "c2", "c3"} : At(w, c) # At(w', c) => (last'.p # 0 /\ c \in Named(ps[last'.p]))]_vars
\* what is not to be configured or activated by it, is not
AsTold == [][\A p \in Procs : ps[p].pc \in Asking /\ ps'[p] # ps[p] =>
               /\ ps[p].pc = "conf" => \E i \in DOMAIN ps[p].o.ctls : ~ps[p].o.ctls[i].lo /\ ps[p].o.ctls[i].n = Request(ps[p]).c
               /\ ps[p].pc \in {"act", "group"} => Range(Request(ps[p]).call.act) \subseteq Wanted(ps[p])]_vars
\* a refusal is never reported as success
NoFalseSuccess == [][\A p \in Procs : (last'.p = p /\ last'.q.kind \notin {"move", "list"} /\ last'.out \in {"no", "lost"}) => (ps'[p].res # 0 /\ ps'[p].pc # "wait")]_vars
\* a spawner is done or waits in the end
Ends == \A p \in 1..2 : <>(p \notin Procs \/ ps[p].pc \in {"wait", "end"})
=============================================================================

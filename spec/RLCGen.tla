------------------------------- MODULE RLCGen ------------------------------
(* Random robots and commands as in RLGen, for controllers of the           *)
(* controller manager: c1 has the first command interface of every joint,   *)
(* c2 the others.                                                           *)
EXTENDS RLGen

RECURSIVE Flat(_, _, _)
Flat(o, c, k) ==
  IF k > Len(o.joints) THEN <<>>
  ELSE LET j == o.joints[k]
           mine == SelectSeq([i \in DOMAIN j.cmd |-> <<i, j.n, j.cmd[i].q>>], LAMBDA x : (x[1] = 1) = (c = "c1")) IN
       [i \in DOMAIN mine |-> <<mine[i][2], mine[i][3]>>] \o Flat(o, c, k + 1)
RECURSIVE Sets(_, _)
Sets(ww, k) ==
  LET M == {p \in Owned : p[2] \in ww.J[p[1]].own} IN
  IF k = 0 \/ M = {} THEN [s |-> <<>>, w |-> ww]
  ELSE CHOOSE r \in {TLCEval(
    LET p == TLCEval(Rnd(M)) IN
    CHOOSE r \in {TLCEval(
      LET v == TLCEval(Des(ww.J[p[1]], p[2], k)) IN
      CHOOSE r \in {TLCEval(
        LET rest == Sets([ww EXCEPT !.J[p[1]] = SetC(ww, p[1], p[2], v, FALSE).x], k - 1) IN
        [s |-> <<<<p[1], p[2], v>>>> \o rest.s, w |-> rest.w])} : TRUE)} : TRUE)} : TRUE
Measured(v) == [w EXCEPT !.J = [n \in DOMAIN @ |-> IF n \in DOMAIN v THEN [@[n] EXCEPT !.st = v[n]] ELSE @[n]]]
NewV == IF P(45) THEN [n \in {} |-> 0] ELSE TLCEval([n \in {n \in DOMAIN w.J : DOMAIN w.J[n].st # {}} |-> TLCEval(Vals(w.J[n]))])
Cycle ==
  \E v \in {TLCEval(IF w.rate > 0 THEN NewV ELSE NewV)} : \E x \in {TLCEval(Measured(v))} : \E r \in {TLCEval(Sets(x, Rnd(0..Len(hist) % 4)))} :
  \E dn \in {Pick(<<8, 4, 2, 1, 1, w.rate, w.rate, w.rate, 0>>)} :
  LET throws == dn > 0 /\ \E n \in DOMAIN r.w.J : Enf(r.w.J[n], dn, FALSE).threw IN
  Do([op |-> "CYC", dn |-> dn, v |-> v, set |-> r.s],
     IF throws THEN r.w ELSE [r.w EXCEPT !.J = [n \in DOMAIN @ |-> Enf(@[n], dn, FALSE).x]])
Uses(c) == {hist[1].ctl[c][k] : k \in DOMAIN hist[1].ctl[c]}
IsOn(c) == \E p \in Uses(c) : p[2] \in w.J[p[1]].own
Switch == \E c \in {Pick(<<"c1", "c2">>)} : \E b \in {P(25)} :
  LET S == {x \in IF b THEN {"c1", "c2"} ELSE {c} : Uses(x) # {}}
      on == {x \in S : ~IsOn(x)} off == S \ on
      own(n) == {q \in Q \cup {"x"} : \/ \E x \in on : <<n, q>> \in Uses(x)
                                      \/ q \in w.J[n].own /\ ~\E x \in off : <<n, q>> \in Uses(x)} IN
  Do([op |-> "SWITCH", act |-> SeqOf(on), dea |-> SeqOf(off), asap |-> P(50)],
     [w EXCEPT !.J = [n \in DOMAIN @ |-> [Forget(@[n]) EXCEPT !.own = own(n)]]])
(* While a joint is measured far out of its range, the control loop's        *)
(* update() throws and nothing can be switched.                              *)
Stuck == w.rate > 0 /\ \E n \in DOMAIN w.J : Enf(w.J[n], w.rate, FALSE).threw
CWork == \E r \in {Rnd(1..100)} : IF ~Stuck /\ (Mine = {} \/ r <= 8) THEN Switch ELSE Cycle
CBegin ==
  \E ns \in {TLCEval(Pick(<<<<"j1">>, <<"j1", "j2">>, <<"j1", "j2">>, <<"j1", "j2", "j3">>>>))} :
  \E ts \in {TLCEval([k \in DOMAIN ns |-> Pick(Types(k))])}, qs \in {TLCEval([k \in DOMAIN ns |-> Chain(k)])} :
  \E js \in {TLCEval([k \in DOMAIN ns |-> RandJ(ns[k], Comp(k), ts[k], qs[k], k)])} :
  \E o \in {TLCEval(NewOp(ns, js))} :
    /\ hist' = <<[ctl |-> [c \in {"c1", "c2"} |-> Flat(o, c, 1)]] @@ o>> /\ w' = New(o)
CNext == IF hist = <<>> THEN CBegin ELSE CWork
CSpec == Init /\ [][CNext]_vars
=============================================================================

------------------------------- MODULE RMGen -------------------------------
(* Random walks through RM; each walk is printed as a script for the        *)
(* driver.  Run with -simulate.                                             *)
EXTENDS RM, Json, Randomization

CONSTANTS D            \* length of a walk
VARIABLES w, hist
vars == <<w, hist>>

Comp(n, t, g, r, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> r, as |-> FALSE, bad |-> "", cmd |-> cmd, st |-> st]
A1(g, r) == Comp("a1", "actuator", g, r, <<"a1j/p", "a1j/v">>, <<"a1j/p">>)
A2(g, r) == Comp("a2", "actuator", g, r, <<"a2j/p">>, <<"a2j/p", "a2j/v">>)
B1(g, r) == Comp("b1", "system", g, r, <<"b1j/p", "b1k/p", "g1/io">>, <<"b1j/p", "b1k/p", "g1/in", "s9/f">>)
B2(g, r) == Comp("b2", "system", g, r, <<"b2j/p", "b2j/v">>, <<"b2j/p">>)
S1(g, r) == Comp("s1", "sensor", g, r, <<>>, <<"s1/fx", "s1/fy">>)
Setups == {
  <<A1("", 0), B1("", 0), S1("", 0)>>,
  <<B1("", 50), A1("", 25), S1("", 10)>>,
  <<A1("G", 0), B1("G", 0), S1("G", 0), A2("", 0)>>,
  <<B2("H", 100), A1("G", 20), A2("G", 50), B1("H", 30)>>,
  <<S1("", 200), B2("", 40), A2("", 100)>>,
  <<A1("", 30), B1("", 7), S1("G", 60), B2("G", 60)>>,
  <<B1("", 0)>>, <<A1("", 33)>>, <<S1("", 0)>>, <<B1("G", 0), B2("G", 0)>> }
Cms == {100, 50, 125}

Rnd(s) == RandomElement(s)
Pick(seq) == seq[Rnd(DOMAIN seq)]
P(x) == Rnd(1..100) <= x

Life == <<"OK", "OK", "OK", "OK", "F", "E", "X", "Y">>
LifeGood == <<"OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "E", "F", "X">>
ErrO == <<"OK", "OK", "F", "E">>
Rw == <<"OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "OK", "E", "E", "X", "Y", "D">>
RwGood == <<"OK">>
Targets == <<"active", "active", "active", "inactive", "inactive", "unconfigured", "unconfigured">>

OutMap(keys, f(_)) == [k \in keys |-> f(k)]
Non(m) == LET ks == {k \in DOMAIN m : m[k] # "OK"} IN [k \in ks |-> m[k]]

T == 1000000 \div w.cfg.cmrate
Dts == <<T, T, T, T, T, T, T, T + 1000, T - 1000, T + 2000, 2 * T, T \div 2, 3 * T + 500, 0, 300000>>

SetOut(c) ==
  Non(TLCEval([k \in {c \o "." \o cb : cb \in {"configure", "activate", "deactivate", "cleanup", "shutdown", "error"}} |->
     IF k = c \o ".error" THEN Pick(ErrO) ELSE IF Rnd(1..2) = 1 THEN Pick(Life) ELSE Pick(LifeGood)]))
RwOut(cb) ==
  Non(TLCEval([k \in UNION {{c \o "." \o cb, c \o ".error", c \o ".deactivate"} : c \in Names(w)} |->
     IF \E c \in Names(w) : k = c \o ".error" THEN Pick(ErrO)
     ELSE IF \E c \in Names(w) : k = c \o ".deactivate" THEN Pick(LifeGood)
     ELSE Pick(Rw)]))
ModeOut(cb) ==
  Non(TLCEval([k \in {c \o "." \o cb : c \in Names(w)} |-> Pick(<<"OK", "OK", "OK", "OK", "OK", "E", "X", "Y", "D">>)]))
RandomSubSeq(S, n) == SetToSeq(RandomSubset(n, S))

Universe == AllCmds(w) \cup {"no/if"}
SomeCmds == IF P(70) THEN LET n == Cardinality(AllCmds(w)) IN RandomSubSeq(AllCmds(w), Rnd(0..(IF n < 3 THEN n ELSE 3)))
            ELSE IF P(80) THEN IF w.acmd = {} THEN <<>> ELSE RandomSubSeq(w.acmd, Rnd(1..Cardinality(w.acmd)))
            ELSE <<"no/if">>
AllSts == UNION {Sts(w, c) : c \in Names(w)}

RandOp(r) ==
  CASE r <= 28 -> [op |-> "READ", dt |-> Pick(Dts), p |-> T, out |-> IF P(45) THEN <<>> ELSE RwOut("read")]
    [] r <= 50 -> [op |-> "WRITE", dt |-> Pick(<<0, 0, 0, 0, 0, 100, T \div 2>>), p |-> Pick(<<T, T, T + 500>>),
                   out |-> IF P(45) THEN <<>> ELSE RwOut("write")]
    [] r <= 76 -> LET c == IF P(97) THEN Rnd(Names(w)) ELSE "ghost" IN
                  LET cc == TLCEval(c) IN
                  [op |-> "SET", c |-> cc, to |-> IF P(3) THEN "bogus" ELSE IF P(5) THEN "finalized" ELSE Pick(Targets), dt |-> 0,
                   bylabel |-> P(20), byid |-> P(20), out |-> IF cc = "ghost" \/ P(50) THEN <<>> ELSE SetOut(cc)]
    [] r <= 83 -> [op |-> "CLAIM", i |-> Rnd(Universe), out |-> <<>>]
    [] r <= 87 -> [op |-> "RELEASE", i |-> Rnd(IF w.held = {} \/ P(10) THEN Universe ELSE w.held), out |-> <<>>]
    [] r <= 90 -> [op |-> "SCLAIM", i |-> Rnd(AllSts \cup {"no/st"}), out |-> <<>>]
    [] r <= 95 -> [op |-> "PREP", a |-> SomeCmds, b |-> SomeCmds, out |-> ModeOut("prepare")]
    [] r <= 99 \/ P(70) -> [op |-> "PERF", a |-> SomeCmds, b |-> SomeCmds, out |-> ModeOut("perform")]
    [] OTHER -> [op |-> "SHUT", out |-> <<>>]

\* loading: usually good, sometimes spoiled in one of the ways that must be refused
Spoil(cs, k) ==
  LET i == Rnd(DOMAIN cs) c == cs[i] IN
  CASE k = "plugin" -> [cs EXCEPT ![i].bad = "plugin"]
    [] k = "drop" -> [cs EXCEPT ![i].bad = "drop"]
    [] k = "dropc" -> IF c.cmd = <<>> THEN [cs EXCEPT ![i].bad = "plugin"] ELSE [cs EXCEPT ![i].bad = "dropc"]
    [] k = "dup" -> Append(cs, c)
    [] OTHER -> cs
LoadOp(cs) ==
  LET k == Pick(<<"", "", "", "plugin", "drop", "dropc", "dup", "mut", "init", "init", "twice">>) IN
  CASE k = "mut" -> [op |-> "LOAD", comps |-> cs, mut |-> Pick(<<"garbage", "noctl", "empty">>), out |-> <<>>]
    [] k = "init" -> [op |-> "LOAD", comps |-> cs, mut |-> "",
                      out |-> [x \in {cs[Rnd(DOMAIN cs)].n \o ".init"} |-> Pick(<<"F", "E", "X", "Y">>)]]
    [] OTHER -> [op |-> "LOAD", comps |-> Spoil(cs, k), mut |-> "", out |-> <<>>]
GoodLoad(cs) == [op |-> "LOAD", comps |-> cs, mut |-> "", out |-> <<>>]

Apply(o) ==
  LET w1 == IF "dt" \in DOMAIN o THEN [w EXCEPT !.ts = @ + o.dt] ELSE w IN
  CASE o.op = "READ" -> Cycle(w1, o, <<>>, TRUE).w
    [] o.op = "WRITE" -> Cycle(w1, o, <<>>, FALSE).w
    [] o.op = "SET" -> SetState(w1, o.c, o.to, o).w
    [] o.op = "CLAIM" -> Claim(w1, o.i).w
    [] o.op = "RELEASE" -> Release(w1, o.i).w
    [] o.op = "SHUT" -> ShutSeq(w1, Names(w1), o).w
    [] o.op = "LOAD" -> Load(w1, o).w
    [] OTHER -> w1

Init ==
  /\ hist = <<[op |-> "RESET", cmrate |-> 0]>>
  /\ w = EmptyWorld([cmrate |-> 100, allow |-> FALSE, retn |-> TRUE, order |-> <<>>, c |-> <<>>])

Begin == \E cm \in {Rnd(Cms)} : \E al \in {P(30)} : \E rn \in {P(75)} :
  /\ Len(hist) = 1 /\ hist[1].cmrate = 0
  /\ hist' = <<[op |-> "RESET", cmrate |-> cm, allow |-> al, retn |-> rn]>>
  /\ w' = [w EXCEPT !.cfg.cmrate = cm, !.cfg.allow = al, !.cfg.retn = rn]
Loading == \E cs \in {Rnd(Setups)} : \E o \in {TLCEval(IF P(40) THEN LoadOp(cs) ELSE GoodLoad(cs))} :
  /\ hist[1].cmrate # 0 /\ w.comps = <<>>
  /\ hist' = Append(hist, o) /\ w' = Apply(o)
\* a walk starts by bringing some components up, otherwise most of it would be refused requests
Up == \E c \in {Rnd(Names(w))} :
  /\ LET o == [op |-> "SET", c |-> c, to |-> "active", dt |-> 0, bylabel |-> FALSE, byid |-> FALSE, out |-> <<>>] IN
     hist' = Append(hist, o) /\ w' = Apply(o)
Work == \E r \in {Rnd(1..100)} : \E o \in {TLCEval(RandOp(r))} :
  /\ hist' = Append(hist, o) /\ w' = Apply(o)
Next ==
  IF hist[1].cmrate = 0 THEN Begin
  ELSE IF w.comps = <<>> THEN Loading
  ELSE IF Len(hist) < 5 THEN Up
  ELSE Work
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

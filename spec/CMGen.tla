------------------------------- MODULE CMGen -------------------------------
(* Random walks through CM; each walk is printed as a script for the        *)
(* driver.  Run with -simulate.                                             *)
EXTENDS CM, Json, Randomization

CONSTANTS D,           \* length of a walk
          Async,       \* percentage of asynchronous controllers
          Faults         \* percentage of cycles and requests in which something goes wrong
VARIABLES w, hist, end
vars == <<w, hist, end>>

Rnd(s) == RandomElement(s)
Pick(seq) == seq[Rnd(DOMAIN seq)]
P(x) == Rnd(1..100) <= x
\* evaluates a random choice once
Let1(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET f(x) == <<x>> \o Shuffle(S \ {x}) IN Let1(Rnd(S), f)
Some(S, n) == RandomSubset(IF n > Cardinality(S) THEN Cardinality(S) ELSE n, S)
Non(m) == LET ks == {k \in DOMAIN m : m[k] # "OK"} IN [k \in ks |-> m[k]]

(* ------------------------------ hardware ------------------------------- *)
Comp(n, t, g, r, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> r, as |-> FALSE, bad |-> "", cmd |-> cmd, st |-> st]
HwA(g, r) == Comp("hwa", "actuator", g, r, <<"j1/p", "j1/v">>, <<"j1/p", "j1/v">>)
HwB(g, r) == Comp("hwb", "actuator", g, r, <<"j2/p">>, <<"j2/p">>)
HwC(g, r) == Comp("hwc", "system", g, r, <<"j3/p", "j4/p", "g1/o">>, <<"j3/p", "j4/p", "g1/i">>)
HwS(g, r) == Comp("hws", "sensor", g, r, <<>>, <<"s1/x">>)
Setups == <<
  <<HwA("", 0), HwB("", 0), HwC("", 0), HwS("", 0)>>,
  <<HwC("", 0), HwA("", 0), HwB("", 0), HwS("", 0)>>,
  <<HwA("G", 0), HwC("", 50), HwB("G", 0), HwS("", 20)>>,
  <<HwS("H", 0), HwB("", 25), HwA("", 0), HwC("H", 0)>>,
  <<HwC("G", 0), HwA("G", 0), HwB("G", 0), HwS("", 0)>>,
  <<HwC("H", 0), HwA("H", 0), HwB("H", 0), HwS("H", 0)>> >>
AllHw == {"hwa", "hwb", "hwc", "hws"}

(* ----------------------------- controllers ----------------------------- *)
Ctl(t, cmd, st, ref, exp) ==
  [type |-> t, cmd |-> cmd, ct |-> "I", pat |-> <<>>, st |-> st, stt |-> "I", spat |-> <<>>, ref |-> ref, exp |-> exp,
   rate |-> 0, fb |-> <<>>, as |-> FALSE, k |-> 0]
Shapes == [n \in {"a1", "a2", "a3", "b1", "u1", "u2", "u3", "c1", "c2", "c3", "c4", "f1", "f2", "d1", "x1"} |->
  CASE n = "a1" -> <<Ctl("plain", <<"j1/p">>, <<"j1/p", "s1/x">>, <<>>, <<>>), Ctl("plain", <<"j1/p", "j2/p">>, <<"j2/p">>, <<>>, <<>>),
                     Ctl("plain", <<"j1/v">>, <<>>, <<>>, <<>>)>>
    [] n = "a2" -> <<Ctl("plain", <<"j2/p">>, <<"j1/p", "j2/p">>, <<>>, <<>>), Ctl("plain", <<"j3/p">>, <<"j3/p">>, <<>>, <<>>),
                     Ctl("plain", <<"j2/p", "g1/o">>, <<"g1/i">>, <<>>, <<>>)>>
    [] n = "a3" -> <<Ctl("plain", <<"j3/p", "j4/p">>, <<"j3/p">>, <<>>, <<>>), Ctl("plain", <<"j4/p">>, <<"j4/p", "j1/p">>, <<>>, <<>>),
                     Ctl("plain", <<>>, <<"s1/x">>, <<>>, <<>>), Ctl("plain", <<"no/p">>, <<>>, <<>>, <<>>),
                     Ctl("plain", <<"j4/p", "j4/p">>, <<>>, <<>>, <<>>), Ctl("plain", <<"j4/p">>, <<"j1/p", "j1/p">>, <<>>, <<>>)>>
    [] n = "b1" -> <<[Ctl("plain", <<"j1/p", "j2/p", "no/p">>, <<"s1/x", "no/s">>, <<>>, <<>>) EXCEPT !.ct = "BE", !.stt = "BE"],
                     [Ctl("plain", <<>>, <<>>, <<>>, <<>>) EXCEPT !.ct = "RX", !.pat = <<"j[12]/.*">>, !.stt = "RX", !.spat = <<"j1/.*">>],
                     [Ctl("plain", <<"c2/r", "j4/p">>, <<>>, <<>>, <<>>) EXCEPT !.ct = "BE"],
                     [Ctl("plain", <<>>, <<>>, <<>>, <<>>) EXCEPT !.stt = "ALL"],
                     [Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>) EXCEPT !.stt = "NONE"]>>
    [] n = "c1" -> <<Ctl("chain", <<"j1/p">>, <<"j1/p">>, <<"c1/r">>, <<"c1/e">>), Ctl("chain", <<"j1/p">>, <<>>, <<"c1/r", "c1/q">>, <<>>),
                     Ctl("chain", <<>>, <<"j1/p">>, <<"c1/r">>, <<"c1/e">>)>>
    [] n = "c2" -> <<Ctl("chain", <<"j2/p">>, <<"j2/p">>, <<"c2/r">>, <<"c2/e">>), Ctl("chain", <<"c1/r">>, <<>>, <<"c2/r">>, <<"c2/e">>),
                     Ctl("chain", <<"j3/p">>, <<"c1/e">>, <<"c2/r">>, <<"c2/e">>)>>
    [] n = "c3" -> <<Ctl("chain", <<"c2/r">>, <<>>, <<"c3/r">>, <<>>), Ctl("chain", <<"c1/r", "c2/r">>, <<>>, <<"c3/r">>, <<>>),
                     Ctl("chain", <<"c1/r">>, <<"s1/x">>, <<"c3/r">>, <<"c3/e">>), Ctl("chain", <<>>, <<"c2/e", "c1/e">>, <<>>, <<"c3/e">>),
                     Ctl("chain", <<"j4/p">>, <<>>, <<>>, <<>>)>>
    [] n = "c4" -> <<Ctl("chain", <<"j4/p">>, <<>>, <<"c4/r">>, <<"c4/e">>), Ctl("chain", <<"c2/r">>, <<>>, <<"c4/r">>, <<>>)>>
    [] n = "u1" -> <<Ctl("plain", <<"c1/r">>, <<>>, <<>>, <<>>), Ctl("plain", <<"c2/r">>, <<"s1/x">>, <<>>, <<>>),
                     Ctl("plain", <<"c3/r">>, <<>>, <<>>, <<>>), Ctl("plain", <<"c1/r", "c2/r">>, <<>>, <<>>, <<>>)>>
    [] n = "u2" -> <<Ctl("plain", <<"c1/r">>, <<>>, <<>>, <<>>), Ctl("plain", <<"c3/r", "j4/p">>, <<>>, <<>>, <<>>),
                     Ctl("plain", <<"c4/r">>, <<"c1/e">>, <<>>, <<>>)>>
    [] n = "u3" -> <<Ctl("plain", <<"j4/p">>, <<"c1/e">>, <<>>, <<>>), Ctl("plain", <<>>, <<"c2/e", "c3/e">>, <<>>, <<>>),
                     Ctl("plain", <<"g1/o">>, <<"c2/e">>, <<>>, <<>>)>>
    [] n = "f1" -> <<Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>), Ctl("plain", <<"j2/p", "j3/p">>, <<>>, <<>>, <<>>),
                     Ctl("plain", <<"c1/r">>, <<>>, <<>>, <<>>)>>
    [] n = "f2" -> <<Ctl("plain", <<"j3/p">>, <<"s1/x">>, <<>>, <<>>), Ctl("plain", <<"j4/p">>, <<>>, <<>>, <<>>)>>
    [] n = "d1" -> <<[Ctl("plain", <<>>, <<>>, <<>>, <<>>) EXCEPT !.ct = "RX", !.pat = <<"j1/.*", "j[12]/.*">>],
                     [Ctl("plain", <<>>, <<>>, <<>>, <<>>) EXCEPT !.stt = "RX", !.spat = <<"j[12]/.*", "j1/.*">>],
                     Ctl("plain", <<"j1/p", "j2/p", "j1/p">>, <<>>, <<>>, <<>>)>>
    [] OTHER -> <<Ctl("none", <<>>, <<>>, <<>>, <<>>)>>]
AllCtl == DOMAIN Shapes
Chainables == {"c1", "c2", "c3", "c4"}
CmRates == <<100, 100, 50, 125>>
Rates == <<0, 0, 0, 0, 100, 50, 25, 33, 10, 60, 200, 7>>
Pre ==
  LET own(n) == {n \o "/" \o x : x \in {"r", "q", "e"}} IN
  [i \in {"j1/p", "j1/v", "j2/p", "j3/p", "j4/p", "g1/o", "g1/i", "s1/x", "no/p", "no/s"} |-> SubSeq(i, 1, 2)]
  @@ [i \in UNION {own(n) : n \in Chainables} |-> CHOOSE n \in Chainables : i \in own(n)]
Rx == [p \in {"j[12]/.*", "j1/.*"} |-> IF p = "j1/.*" THEN <<"j1/p", "j1/v">> ELSE <<"j1/p", "j1/v", "j2/p">>]

\* A: interfaces that exist
RandCtl(n, A) ==
  LET fits == SelectSeq(Shapes[n], LAMBDA d : d.ct # "I" \/ (Range(d.cmd) \subseteq A /\ Range(d.st) \subseteq A))
      f(d) ==
        LET plainI == n \notin {"x1"}
            g(as) == [d EXCEPT !.rate = IF as THEN 0 ELSE Pick(Rates), !.as = as, !.k = Rnd(1..9) * 10,
                              !.fb = IF n \in {"a1", "a2", "a3", "c1", "c2", "u1", "u2"} /\ P(70)
                                     THEN Shuffle(Some({"f1", "f2"}, Rnd(1..2))) ELSE <<>>]
        IN Let1(P(Async) /\ n \notin {"b1", "d1"}, g)
  IN Let1(Pick(IF fits = <<>> \/ P(20) THEN Shapes[n] ELSE fits), f)
HwIfs == {"j1/p", "j1/v", "j2/p", "j3/p", "j4/p", "g1/o", "g1/i", "s1/x"}
RECURSIVE RandAll(_, _, _)
RandAll(todo, A, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET n == Head(todo)
           f(d) == RandAll(Tail(todo), A \cup {n \o SubSeq(i, 3, Len(i)) : i \in Range(d.ref) \cup Range(d.exp)}, (n :> d) @@ acc)
       IN Let1(RandCtl(n, A), f)
RandCtls(N) == LET r == SelectSeq(<<"c1", "c2", "c3", "c4">>, LAMBDA n : n \in N)
               IN RandAll(r \o SetToSeq(N \ Chainables), HwIfs, <<>>)

(* ------------------------------ outcomes ------------------------------- *)
Life == <<"OK", "OK", "OK", "OK", "OK", "OK", "F", "E", "X">>
ErrO == <<"OK", "OK", "F", "E">>
Life1(S) ==
  Non(TLCEval([k \in UNION {{n \o "." \o cb : cb \in {"configure", "activate", "deactivate", "cleanup", "shutdown", "error"}} : n \in S} |->
     IF \E n \in S : k = n \o ".error" THEN Pick(ErrO) ELSE Pick(Life)]))
ChainOut(S) == Non(TLCEval([k \in {n \o ".chain" : n \in S \cap Chainables} |-> IF P(15) THEN "F" ELSE "OK"]))
ModeOut ==
  Non(TLCEval([k \in UNION {{h \o ".prepare", h \o ".perform"} : h \in Names(w.rm)} |->
     Pick(<<"OK", "OK", "OK", "OK", "OK", "OK", "E", "X", "D">>)]))
HwLife == <<"OK", "OK", "OK", "OK", "OK", "F", "E", "X">>
HwOut(S) ==
  Non(TLCEval([k \in UNION {{c \o "." \o cb : cb \in {"configure", "activate", "deactivate", "cleanup", "shutdown", "error"}} : c \in S} |->
     IF \E c \in S : k = c \o ".error" THEN Pick(ErrO) ELSE Pick(HwLife)]))
OneOf(S, cb, vals) == LET f(n) == LET g(v) == [k \in {n \o "." \o cb} |-> v] IN Let1(Pick(vals), g) IN IF S = {} THEN <<>> ELSE Let1(Rnd(S), f)
Act == {n \in Loaded(w) : Active(w, n)}
SwitchOut(A, Z) ==
  IF ~P(Faults) THEN <<>>
  ELSE LET r(x) == CASE x = 1 -> ModeOut
                     [] x = 2 -> ChainOut(Loaded(w))
                     [] x = 3 -> Life1(Some(Loaded(w), 3))
                     [] x \in {4, 5} -> OneOf(A, "activate", <<"F", "E", "X">>) @@ Life1(Some(A, 1))
                     [] x = 6 -> OneOf(Z, "deactivate", <<"F", "E", "X">>)
                     [] OTHER -> OneOf(Z, "deactivate", <<"F", "E", "X">>) @@ Life1(Some(A \cup Z, 2)) @@ ModeOut
       IN Let1(Rnd(1..7), r)
CycleOut ==
  IF ~P(IF Act = {} THEN 4 ELSE Faults) THEN <<>>
  ELSE LET r(x) == CASE x = 1 -> OneOf(Names(w.rm), "read", <<"E", "X", "D">>)
                     [] x \in {2, 3} -> OneOf(Names(w.rm), "write", <<"E", "X", "D", "D">>)
                     [] x \in {4, 5} -> OneOf(Act, "update", <<"E", "X">>)
                     [] x = 6 -> OneOf(Act, "update", <<"E", "X">>) @@ OneOf(Act, "update", <<"E", "X">>) @@ Life1(Some(Loaded(w), 2))
                     [] x = 7 -> OneOf(Act, "update", <<"E">>) @@ OneOf(Names(w.rm), "write", <<"E", "D">>) @@ ModeOut
                     [] x = 8 -> OneOf(Names(w.rm), "write", <<"E", "D">>) @@ OneOf(Names(w.rm), "write", <<"E", "X", "D">>)
                                 @@ Life1(Some(Loaded(w), 2)) @@ HwOut(Some(Names(w.rm), 1))
                     [] x = 9 -> OneOf(Names(w.rm), "read", <<"E", "X">>) @@ OneOf(Names(w.rm), "read", <<"E", "D">>) @@ Life1(Some(Loaded(w), 1))
                     [] OTHER -> OneOf(Act, "update", <<"E">>) @@ ChainOut(Loaded(w)) @@ OneOf(Loaded(w), "activate", <<"F", "E">>)
       IN Let1(Rnd(1..10), r)

(* ----------------------------- operations ------------------------------ *)
T == 1000000 \div w.cmrate
Dts == <<T, T, T, T, T, T, T, T, T + 1000, T - 1000, T + 2000, 2 * T, T \div 2, 3 * T + 500, 300000>>
Inact == {n \in Loaded(w) : Inactive(w, n)}
\* controllers whose interfaces n needs, transitively
RECURSIVE Below(_)
Below(S) ==
  LET Z == ({Owner(w, i) : i \in UNION {Range(AllNames(w, n)) : n \in S}} \ S) \cap {n \in Loaded(w) : Configured(w, n)} IN
  IF Z = {} THEN S ELSE Below(S \cup Z)
RECURSIVE Over(_)
Over(S) ==
  LET Z == {n \in Loaded(w) : n \notin S /\ Configured(w, n) /\ Uses(w, n, S)} IN
  IF Z = {} THEN S ELSE Over(S \cup Z)
Clash(S) == {n \in Act : \E m \in S : m # n /\ Range(CmdNames(w, n)) \cap Range(CmdNames(w, m)) # {}}
Req(act, dea) ==
  [op |-> "SWITCH", act |-> Shuffle(act), dea |-> Shuffle(dea), strict |-> Pick(<<2, 2, 2, 1, 1, 1, 0, 3, 4>>),
   asap |-> P(20), to |-> Pick(<<0, 0, 5000>>), stall |-> FALSE, mid |-> P(10), out |-> SwitchOut(act, dea)]
Sensible ==
  LET f(n) ==
        LET g(A) == LET h(Z) == Req(A, Z) IN
                    Let1(IF P(70) THEN Over(Clash(A)) \cap Act ELSE Some(Act, Rnd(0..1)), h)
        IN Let1(Below({n}) \cap Inact, g)
  IN IF Inact = {} THEN Req({}, Some(Act, 1)) ELSE Let1(Rnd(Inact), f)
\* as many as can be activated together
RECURSIVE Grow(_, _)
Grow(A, todo) ==
  IF todo = <<>> THEN A
  ELSE LET B == A \cup (Below({Head(todo)}) \cap Inact)
           o == OfferAll(w, ListOf(w, B))
       IN Grow(IF Possible(o, ListOf(w, B), <<>>) THEN B ELSE A, Tail(todo))
Cand == IF P(15) THEN Inact ELSE Inact \ {"f1", "f2"}
Growing ==
  LET f(k) == LET g(A) == Req(A, {}) IN Let1(Grow({}, Shuffle(Some(Cand, k))), g)
  IN Let1(Rnd(2..6), f)
Stopping ==
  LET f(n) == LET h(Z) == Req({}, Z) IN Let1(IF P(60) THEN Over({n}) \cap Act ELSE {n}, h)
  IN IF Act = {} THEN Sensible ELSE Let1(Rnd(Act), f)
Swap ==
  LET f(n) == LET g(A) == LET h(Z) == Req(A, Z) IN
                          Let1((Over({n}) \cap Act) \cup (Clash(A) \cap Act) \cup Some(Act, Rnd(0..1)), h)
              IN Let1(Some(Inact, Rnd(0..3)) \cup (IF P(30) THEN {n} ELSE {}), g)
  IN IF Act = {} THEN Sensible ELSE Let1(Rnd(Act), f)
Wild == LET f(S) == LET g(Z) == Req(S, Z) IN Let1(Some(AllCtl, Rnd(0..3)) \cup (IF P(15) THEN {"ghost"} ELSE {}), g)
        IN Let1(Some(AllCtl, Rnd(0..3)) \cup (IF P(15) THEN {"ghost"} ELSE {}), f)
Everything == LET f(A) == Req(A, {}) IN Let1(Inact, f)
SwitchOp == LET r(x) == CASE x <= (IF Act = {} THEN 60 ELSE 30) -> Growing [] x <= 40 -> Sensible [] x <= 60 -> Swap [] x <= 75 -> Stopping [] x <= 90 -> Everything [] OTHER -> Wild
            IN Let1(Rnd(1..100), r)

Pend == \E n \in Loaded(w) : w.c[n].pend
Sick == \E n \in Loaded(w) : Active(w, n) /\ (w.c[n].exc \/ w.c[n].ret # "OK")
CycleOp == [op |-> "CYCLE", dt |-> Pick(Dts), p |-> Pick(<<T, T, T, T + 300>>), v |-> Rnd(1..9) * 100, out |-> CycleOut]
RunOp == [op |-> "RUN", v |-> Rnd(1..9) * 100, out |-> IF P(Faults) THEN OneOf(Act, "update", <<"E", "X">>) ELSE <<>>]
Named(op, S, cbs) ==
  LET f(n) == [op |-> op, c |-> n,
               out |-> IF P(Faults) THEN Life1({n}) @@ ChainOut({n}) @@ (IF op = "CONF" /\ n \in Chainables /\ P(30) THEN (n \o ".export" :> Pick(<<"X", "N">>)) ELSE <<>>)
                                       @@ (IF op = "LOADC" THEN (n \o ".init" :> Pick(<<"OK", "F", "E", "X">>)) ELSE <<>>)
                       ELSE <<>>]
  IN Let1(Rnd(S), f)
NotLoaded == DOMAIN w.d \ Loaded(w)
Unconf == {n \in Loaded(w) : w.c[n].st = "unconfigured"}
Or(S, T2) == IF S = {} THEN T2 ELSE S
LoadOp == Named("LOADC", IF P(95) THEN Or(NotLoaded, AllCtl) ELSE AllCtl, {})
ConfOp == Named("CONF", IF P(92) THEN Or(Unconf, AllCtl) ELSE IF P(70) THEN Or(Inact, AllCtl) ELSE AllCtl, {})
CleanOp == Named("CLEAN", IF P(80) THEN Or(Inact, AllCtl) ELSE AllCtl, {})
UnloadOp == Named("UNLOAD", IF P(80) THEN Or(Inact \cup Unconf, AllCtl) ELSE AllCtl, {})
SetHwOp ==
  LET f(c) == LET g(t) == [op |-> "SETHW", c |-> c, to |-> t, out |-> IF P(Faults) /\ c # "ghost" THEN HwOut({c}) ELSE <<>>]
              IN Let1(Pick(<<"active", "active", "active", "inactive", "inactive", "unconfigured">>), g)
      low == {c \in Names(w.rm) : w.rm.comps[c] # "active"}
  IN Let1(IF P(3) THEN "ghost" ELSE Rnd(IF P(70) THEN Or(low, Names(w.rm)) ELSE Names(w.rm)), f)
WorkOp(r) ==
  IF Sick THEN CycleOp
  ELSE IF (\E c \in Names(w.rm) : w.rm.comps[c] \in {"inactive", "unconfigured"}) /\ P(45) THEN
    LET f(c) == [op |-> "SETHW", c |-> c, to |-> "active", out |-> <<>>]
    IN Let1(Rnd({c \in Names(w.rm) : w.rm.comps[c] \in {"inactive", "unconfigured"}}), f)
  ELSE IF Unconf # {} /\ P(25) THEN ConfOp
  ELSE IF Act = {} /\ Inact # {} /\ P(40) THEN SwitchOp
  ELSE IF Pend /\ P(60) THEN RunOp
  ELSE CASE r <= 40 -> CycleOp
         [] r <= 72 -> SwitchOp
         [] r <= 76 -> LoadOp
         [] r <= 83 -> ConfOp
         [] r <= 86 -> CleanOp
         [] r <= 89 -> UnloadOp
         [] r <= 98 -> SetHwOp
         [] r <= 99 /\ P(30) -> [op |-> "RELOAD", force |-> P(70), out |-> <<>>]
         [] OTHER -> CycleOp
EarlyOp == IF Sick THEN CycleOp ELSE IF NotLoaded # {} /\ P(60) THEN LoadOp ELSE IF Unconf # {} THEN ConfOp ELSE IF P(20) THEN CycleOp ELSE SwitchOp

Strict3(s) == IF s \in {3, 4} THEN 1 ELSE s
Apply(o) ==
  LET x == [w EXCEPT !.rm.ts = IF "dt" \in DOMAIN o THEN @ + o.dt ELSE @, !.log = <<>>, !.reqs = <<>>, !.ok = TRUE, !.ph = "s"]
      fin(y) == Tick([y EXCEPT !.ord = TopoSort(y, y.ord)], {}) IN
  CASE o.op = "CYCLE" -> FullCycle(x, o, <<>>, {})
    [] o.op = "RUN" -> FlushAll([x EXCEPT !.ph = "a"], x.ord, o)
    [] o.op = "LOADC" -> fin(LoadC(x, o.c, o))
    [] o.op = "CONF" -> fin(Configure(x, o.c, o))
    [] o.op = "CLEAN" -> fin(Clean(x, o.c, o))
    [] o.op = "UNLOAD" -> fin(Unload(x, o.c, o))
    [] o.op = "RELOAD" -> fin(Reload(x, o.force, o))
    [] o.op = "SWITCH" -> fin(Switch(x, o))
    [] o.op = "SETHW" -> fin(FromRM(x, SetState(x.rm, o.c, o.to, o)))
    [] OTHER -> x

Blank == [limits |-> FALSE, shut |-> FALSE, unconf |-> <<>>, inact |-> <<>>, strict |-> "strict", allow |-> FALSE, retn |-> TRUE]
Init == hist = <<>> /\ end = FALSE /\ w = EmptyCM([cmrate |-> 100, params |-> Blank], <<>>, <<>>, <<>>)
Begin ==
  \E cm \in {Pick(CmRates)} : \E N \in {Some(AllCtl, Rnd(4..9))} :
  \E U \in {IF P(70) THEN {} ELSE Some(AllHw, Rnd(0..2))} : \E I \in {IF P(70) THEN {} ELSE Some(AllHw, Rnd(0..2))} :
  \E p \in {[Blank EXCEPT !.shut = P(6), !.unconf = Shuffle(U), !.inact = Shuffle(I),
                          !.strict = IF P(50) THEN "strict" ELSE "best_effort", !.allow = P(30), !.retn = P(75)]} :
  \E d \in {RandCtls(N \cup {"f1", "f2"})} :
    LET e == [op |-> "RESET", cmrate |-> cm, params |-> p, ctls |-> d, pre |-> Pre, rx |-> Rx] IN
    hist' = <<e>> /\ w' = EmptyCM(e, d, Pre, Rx) /\ end' = end
\* a robot description that is refused, then a good one
Bring ==
  \E cs \in {Pick(Setups)} : \E good \in {P(85)} :
  \E o \in {[op |-> "START", comps |-> cs, lim |-> <<>>, mut |-> IF good THEN "" ELSE Pick(<<"", "garbage", "empty">>),
             out |-> IF good THEN (IF P(2 * Faults) THEN HwOut(Some(AllHw, Rnd(1..4))) ELSE <<>>)
                     ELSE [k \in {cs[1].n \o ".init"} |-> Pick(<<"F", "E", "X">>)]]} :
  \E r \in {Start(w, o, [i \in DOMAIN cs |-> cs[i].n])} :
    hist' = Append(hist, o) /\ w' = r.w /\ end' = r.threw
Work ==
  \E r \in {Rnd(1..100)} : \E o \in {TLCEval(IF Len(hist) < 18 /\ P(80) THEN EarlyOp ELSE WorkOp(r))} :
    hist' = Append(hist, o) /\ w' = Apply(o) /\ end' = end
Next ==
  /\ ~end /\ Len(hist) < D
  /\ IF hist = <<>> THEN Begin ELSE IF ~w.init THEN Bring ELSE Work
Emit == ~(end \/ Len(hist) = D) \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

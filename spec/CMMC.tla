-------------------------------- MODULE CMMC --------------------------------
(* Exhaustive exploration of CM for small robots and sets of controllers:   *)
(* from every reachable state every request and cycle, with one or more     *)
(* callbacks failing (MaxF).  With Cover = TRUE every transition is printed *)
(* (fingerprints of the states it connects, and the operation); walks over  *)
(* this graph are replayed on the implementation.                           *)
EXTENDS CM, Json, TLCExt

CONSTANTS Robot, Cover, MaxF, Strictnesses
VARIABLES w, last
vars == <<w, last>>

(* ---------------------------- small worlds ----------------------------- *)
Comp(n, t, g, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> 0, as |-> FALSE, bad |-> "", cmd |-> cmd, st |-> st]
HwA(g) == Comp("hwa", "actuator", g, <<"j1/p">>, <<"j1/p">>)
HwB(g) == Comp("hwb", "system", g, <<"j2/p">>, <<"j2/p">>)
Ctl(t, cmd, st, ref, exp) ==
  [type |-> t, cmd |-> cmd, ct |-> "I", pat |-> <<>>, st |-> st, stt |-> "I", spat |-> <<>>, ref |-> ref, exp |-> exp,
   rate |-> 0, fb |-> <<>>, as |-> FALSE, k |-> 10]
W(comps, ctls, ops) == [comps |-> comps, ctls |-> ctls, ops |-> ops]
World ==
  CASE Robot = 1 ->   \* a chain of two and a rival
         W(<<HwA("")>>, "c1" :> Ctl("chain", <<"j1/p">>, <<>>, <<"c1/r">>, <<>>) @@ "u1" :> Ctl("plain", <<"c1/r">>, <<>>, <<>>, <<>>)
           @@ "a1" :> Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>), {"SWITCH", "CYCLE", "CONF", "CLEAN"})
    [] Robot = 2 ->   \* a chain of three
         W(<<HwA("")>>, "c1" :> Ctl("chain", <<"j1/p">>, <<>>, <<"c1/r">>, <<>>)
           @@ "c2" :> Ctl("chain", <<"c1/r">>, <<>>, <<"c2/r">>, <<>>) @@ "u1" :> Ctl("plain", <<"c2/r">>, <<>>, <<>>, <<>>), {"SWITCH", "CYCLE", "CONF"})
    [] Robot = 3 ->   \* fallback, two components
         W(<<HwA(""), HwB("")>>, "a1" :> [Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>) EXCEPT !.fb = <<"f1">>]
           @@ "a2" :> Ctl("plain", <<"j2/p">>, <<"j1/p">>, <<>>, <<>>) @@ "f1" :> Ctl("plain", <<"j2/p">>, <<>>, <<>>, <<>>),
           {"SWITCH", "CYCLE", "SETHW"})
    [] Robot = 4 ->   \* a group, exported states
         W(<<HwA("G"), HwB("G")>>, "c1" :> Ctl("chain", <<"j1/p">>, <<>>, <<"c1/r">>, <<"c1/e">>)
           @@ "u1" :> Ctl("plain", <<"j2/p">>, <<"c1/e">>, <<>>, <<>>), {"SWITCH", "CYCLE", "SETHW"})
    [] Robot = 5 ->   \* asynchronous controllers
         W(<<HwA("")>>, "a1" :> [Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>) EXCEPT !.as = TRUE]
           @@ "a2" :> [Ctl("plain", <<"j1/p">>, <<>>, <<>>, <<>>) EXCEPT !.as = TRUE], {"SWITCH", "CYCLE", "RUN", "CLEAN", "CONF"})
    [] Robot = 6 ->   \* loading and unloading
         W(<<HwA("")>>, "c1" :> Ctl("chain", <<"j1/p">>, <<>>, <<"c1/r">>, <<"c1/e">>) @@ "u1" :> Ctl("plain", <<"c1/r">>, <<>>, <<>>, <<>>),
           {"SWITCH", "LOADC", "CONF", "CLEAN", "UNLOAD"})
Names0 == DOMAIN World.ctls
Chainables == {n \in Names0 : World.ctls[n].type = "chain"}
Pre == [i \in {"j1/p", "j2/p"} |-> SubSeq(i, 1, 2)]
       @@ [i \in UNION {Range(World.ctls[n].ref) \cup Range(World.ctls[n].exp) : n \in Chainables} |-> SubSeq(i, 1, 2)]
Par == [limits |-> FALSE, shut |-> FALSE, unconf |-> <<>>, inact |-> <<>>, strict |-> "strict", allow |-> FALSE, retn |-> TRUE]
ResetOp == [op |-> "RESET", cmrate |-> 100, params |-> Par, ctls |-> World.ctls, pre |-> Pre, rx |-> <<>>]
StartOp == [op |-> "START", comps |-> World.comps, lim |-> <<>>, mut |-> "", out |-> <<>>]
Ready == SetToSeq(Names0)
PreOps == <<ResetOp, StartOp>>
          \o (IF "LOADC" \in World.ops THEN <<>>
              ELSE [k \in DOMAIN Ready |-> [op |-> "LOADC", c |-> Ready[k], out |-> <<>>]]
                   \o [k \in DOMAIN Ready |-> [op |-> "CONF", c |-> Ready[k], out |-> <<>>]])

(* ---------------------------- one operation ---------------------------- *)
Apply(x0, o) ==
  LET x == [x0 EXCEPT !.rm.ts = IF "dt" \in DOMAIN o THEN @ + o.dt ELSE @, !.log = <<>>, !.reqs = <<>>, !.ok = TRUE, !.ph = "s"]
      fin(y) == Tick([y EXCEPT !.ord = TopoSort(y, y.ord)], {}) IN
  CASE o.op = "CYCLE" -> FullCycle(x, o, <<>>, {})
    [] o.op = "RUN" -> FlushAll([x EXCEPT !.ph = "a"], x.ord, o)
    [] o.op = "LOADC" -> fin(LoadC(x, o.c, o))
    [] o.op = "CONF" -> fin(Configure(x, o.c, o))
    [] o.op = "CLEAN" -> fin(Clean(x, o.c, o))
    [] o.op = "UNLOAD" -> fin(Unload(x, o.c, o))
    [] o.op = "SWITCH" -> fin(Switch(x, o))
    [] o.op = "SETHW" -> fin(FromRM(x, SetState(x.rm, o.c, o.to, o)))
    [] OTHER -> x
RECURSIVE ApplyAll(_, _)
ApplyAll(x, ops) == IF ops = <<>> THEN x ELSE ApplyAll(Apply(x, Head(ops)), Tail(ops))
None == [op |-> "NONE", out |-> <<>>]
Clear(x) == [x EXCEPT !.log = <<>>, !.reqs = <<>>, !.vals = <<>>, !.ok = TRUE]
W0 == LET w0 == EmptyCM(ResetOp, World.ctls, Pre, <<>>)
          s == Start(w0, StartOp, [k \in DOMAIN World.comps |-> World.comps[k].n]).w
      IN ApplyAll(s, SubSeq(PreOps, 3, Len(PreOps)))
\* states are told apart by everything but the clock
View ==
  <<[n \in DOMAIN w.c |-> [w.c[n] EXCEPT !.last = IF @ = 0 THEN 0 ELSE 1, !.per = 0]],
    w.rm.comps, w.rm.acmd, w.rm.ast, w.rm.held, w.rm.grp, w.hwc, w.ord, w.sp>>
Init == /\ w = Clear(W0) /\ last = [o |-> None, ok |-> TRUE, log |-> <<>>, reqs |-> <<>>]
        /\ Cover => PrintT("@I" \o ToJson(<<TLCFP(View), PreOps>>))

\* what can go wrong in an operation that made these calls
Kinds(k, cb) ==
  CASE k \in Names0 /\ cb \in {"activate", "configure", "cleanup"} -> {"F", "E", "X"}
    [] k \in Names0 /\ cb \in {"deactivate"} -> {"F", "E"}
    [] k \in Names0 /\ cb = "update" -> {"E", "X"}
    [] k \in Names0 /\ cb = "error" -> {"F"}
    [] k \in Names0 /\ cb = "chain" -> {"F"}
    [] k \in Names0 -> {}
    [] cb = "read" -> {"E"}
    [] cb = "write" -> {"E", "D"}
    [] cb \in {"activate", "configure", "deactivate"} -> {"E"}
    [] cb = "error" -> {"F"}
    [] OTHER -> {}
Called2(y) == {<<y.log[j].c, y.log[j].cb>> : j \in DOMAIN y.log}
              \cup UNION {{<<h, y.reqs[j].cb>> : h \in y.reqs[j].must} : j \in DOMAIN y.reqs}
Single(y, used) ==
  UNION {LET k == p[1] \o "." \o p[2] IN
         IF k \in used THEN {} ELSE {k :> v : v \in (IF p[2] \in {"prepare", "perform"} THEN {"E"} ELSE Kinds(p[1], p[2]))} : p \in Called2(y)}
RECURSIVE Outs(_, _, _)
Outs(x, o, n) ==
  LET y == Apply(x, o) IN
  {o.out} \cup (IF n = 0 THEN {} ELSE UNION {Outs(x, [o EXCEPT !.out = o.out @@ f], n - 1) : f \in Single(y, DOMAIN o.out)})

Do(o0) ==
  \E out \in Outs(w, o0, MaxF) :
    LET o == [o0 EXCEPT !.out = out]
        y == Apply(w, o) IN
    /\ w' = Clear(y)
    /\ last' = [o |-> o, ok |-> y.ok, log |-> y.log, reqs |-> y.reqs]
    /\ Cover => PrintT("@@" \o ToJson(<<TLCFP(View), TLCFP(View'), o>>))
T == 10000
Sick == \E n \in Loaded(w) : Active(w, n) /\ (w.c[n].exc \/ w.c[n].ret # "OK")
Subs == {S \in SUBSET Names0 : TRUE}
Next ==
  \/ /\ "SWITCH" \in World.ops /\ ~Sick
     /\ \E A \in Subs, Z \in Subs, s \in Strictnesses :
          /\ A \cup Z # {} /\ (A \cap Z = {} \/ Cardinality(A \cup Z) <= 2)
          /\ Do([op |-> "SWITCH", act |-> SetToSeq(A), dea |-> SetToSeq(Z), strict |-> s, asap |-> FALSE, to |-> 0,
                 stall |-> FALSE, mid |-> FALSE, out |-> <<>>])
  \/ /\ "CYCLE" \in World.ops /\ Do([op |-> "CYCLE", dt |-> T, p |-> T, v |-> 100, out |-> <<>>])
  \/ /\ "RUN" \in World.ops /\ Do([op |-> "RUN", v |-> 200, out |-> <<>>])
  \/ /\ "SETHW" \in World.ops /\ ~Sick
     /\ \E c \in Names(w.rm) : \E t \in {"active", "inactive", "unconfigured"} : Do([op |-> "SETHW", c |-> c, to |-> t, out |-> <<>>])
  \/ ~Sick /\ \E op \in World.ops \cap {"CONF", "CLEAN", "LOADC", "UNLOAD"} : \E n \in Names0 : Do([op |-> op, c |-> n, out |-> <<>>])
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Acts(x) == {n \in Loaded(x) : Active(x, n)}
\* M04
Owners == /\ \A n \in Loaded(w) :
               /\ Active(w, n) => w.c[n].l = CmdNames(w, n) /\ w.c[n].sl = StNames(w, n)
               /\ ~Active(w, n) => w.c[n].l = <<>> /\ w.c[n].sl = <<>>
          /\ w.rm.held = UNION {Range(w.c[n].l) : n \in Loaded(w)}
\* H03, M04
Exclusive == \A n, m \in Loaded(w) : n # m => Range(w.c[n].l) \cap Range(w.c[m].l) = {}
\* M06
Order == Sorted(w, w.ord)
\* callbacks of a controller that did not do what was asked of them
Balked == {n \in Names0 : \E k \in DOMAIN last'.o.out : k \in {n \o ".deactivate", n \o ".chain"}}
\* M05: controllers whose interfaces an active one uses are active
Users(x, f) == {p \in Loaded(x) : p # f /\ Active(x, p) /\ \E i \in Range(AllNames(x, p)) : Owner(x, i) = f}
RefUsers(x, f) == {p \in Users(x, f) : \E i \in Range(CmdNames(x, p)) : Owner(x, i) = f}
Loose(x) == {p \in Acts(x) : \E i \in Range(AllNames(x, p)) : Owner(x, i) # "" /\ ~Active(x, Owner(x, i))}
ChainKept == [][last'.o.op \in {"SWITCH", "CYCLE"} /\ Balked = {} => Loose(w') \subseteq Loose(w)]_vars
AllChained(x) == \A f \in Acts(x) : Chainable(x, f) /\ RefUsers(x, f) # {} => x.c[f].chd
\* a refusal of chained mode is only logged: not explored further
Sound == AllChained(w)
ChainedWhenUsed == [][last'.o.op = "SWITCH" /\ last'.ok /\ Balked = {} /\ AllChained(w) => AllChained(w')]_vars
ChainedOnlyInactive == [][\A n \in Loaded(w) \cap Loaded(w') :
  w.c[n].chd # w'.c[n].chd => \E k \in DOMAIN last'.log : last'.log[k].c = n /\ last'.log[k].cb = "chain" /\ last'.log[k].st # "active"]_vars
\* M02
Carried(log) == \E k \in DOMAIN log : log[k].c \in Names0 /\ log[k].cb \in {"activate", "deactivate"}
StrictAtomic == [][last'.o.op = "SWITCH" /\ last'.o.strict = 2 =>
   LET o == last'.o A == Range(o.act) Z == Range(o.dea)
       done == /\ \A n \in A : Active(w', n)
               /\ \A n \in Z \ A : ~Active(w', n) IN
   /\ last'.ok => done
   /\ ~Carried(last'.log) /\ ~last'.ok => /\ w'.rm.held = w.rm.held
                             /\ \A n \in Loaded(w) : w'.c[n].st = w.c[n].st /\ w'.c[n].l = w.c[n].l
   /\ ~last'.ok /\ Balked = {} => \A n \in A : Active(w', n) => Active(w, n)]_vars
\* M03: nobody else is touched
Touched(n) == \E k \in DOMAIN last'.log : last'.log[k].c = n /\ last'.log[k].cb \in {"activate", "deactivate", "error"}
NotNamed == [][last'.o.op = "SWITCH" /\ last'.ok /\ last'.o.out = <<>> =>
   \A n \in Loaded(w) \ (Range(last'.o.act) \cup Range(last'.o.dea)) : w'.c[n].st = w.c[n].st]_vars
\* whoever can be stopped without breaking a chain is stopped
RECURSIVE Dependents(_, _)
Dependents(x, S) == LET Y == UNION {Users(x, f) : f \in S} \ S IN IF Y = {} THEN S ELSE Dependents(x, S \cup Y)
BestEffortPossible == [][last'.o.op = "SWITCH" /\ last'.o.strict = 1 /\ last'.o.out = <<>> /\ last'.ok =>
   LET D == Range(last'.o.dea) \ Range(last'.o.act) IN
   \A n \in D : Active(w, n) /\ Dependents(w, {n}) \subseteq D
               /\ (\A p \in Range(last'.o.act) : p \notin Loaded(w) \/ (\A i \in Range(AllNames(w, p)) : Owner(w, i) \notin Dependents(w, {n})))
      => ~Active(w', n)]_vars
\* M01
Steps == [][\A n \in Loaded(w) \cap Loaded(w') :
   LET a == w.c[n].st b == w'.c[n].st op == last'.o.op IN
   a # b =>
     CASE op = "CONF" -> a \in {"unconfigured", "inactive"} /\ b \in {"unconfigured", "inactive", "finalized"}
       [] op = "CLEAN" -> a = "inactive" /\ b \in {"unconfigured", "finalized"}
       [] op \in {"SWITCH", "CYCLE"} -> a \in {"inactive", "active"}
       [] op = "SETHW" -> FALSE
       [] OTHER -> a = "inactive"]_vars
Honest == [][
   CASE last'.o.op = "CONF" -> last'.ok => Inactive(w', last'.o.c)
     [] last'.o.op = "CLEAN" -> last'.ok => w'.c[last'.o.c].st = "unconfigured"
     [] last'.o.op = "UNLOAD" -> last'.ok <=> (last'.o.c \in Loaded(w) /\ last'.o.c \notin Loaded(w'))
     [] last'.o.op = "LOADC" -> last'.ok <=> (last'.o.c \notin Loaded(w) /\ last'.o.c \in Loaded(w'))
     [] OTHER -> TRUE]_vars
NoLeftovers == \A i \in (w.rm.acmd \cup w.rm.ast) : (i \in DOMAIN w.pre /\ SubSeq(i, 1, 1) = "c") => w.pre[i] \in Loaded(w) /\ w.c[w.pre[i]].imp
\* M08, M09
Fails(n, cb) == \E k \in DOMAIN last'.o.out : k = n \o "." \o cb /\ last'.o.out[k] # "OK"
UpdateFailure == [][last'.o.op = "CYCLE" /\ (\A h \in Names(w.rm) : ~Fails(h, "read") /\ ~Fails(h, "write") /\ (Grp(w.rm, h) = "" \/ w.rm.grp[Grp(w.rm, h)] = "OK")) =>
   /\ \A n \in Acts(w) : Fails(n, "update") /\ ~w.c[n].as => (~Active(w', n) \/ n \in Balked)
   /\ (\A n \in Acts(w) : ~Fails(n, "update") /\ ~w.c[n].exc /\ w.c[n].ret = "OK") => \A n \in Loaded(w) : w'.c[n].st = w.c[n].st
   /\ Loose(w) = {} /\ Balked = {} => Loose(w') = {}]_vars
Hit == {h \in Names(w.rm) : Fails(h, "read") \/ (Fails(h, "write") /\ last'.o.out[h \o ".write"] = "E")}
\* the members of a group fail together
Gone == {h \in Names(w.rm) : \E g \in Hit : g = h \/ (Grp(w.rm, h) # "" /\ Grp(w.rm, h) = Grp(w.rm, g) /\ w.rm.comps[h] \in Serving)}
HardwareFailure == [][last'.o.op = "CYCLE" =>
   /\ \A n \in Acts(w) : (\E h \in Hit : Range(AllNames(w, n)) \cap (Cmds(w.rm, h) \cup Sts(w.rm, h)) # {})
                         => (~Active(w', n) \/ n \in Balked)
   /\ \A n \in Acts(w) : ~Active(w', n) =>
        \/ \E h \in Names(w.rm) : w'.rm.comps[h] # "active"
        \/ \E m \in Acts(w) : Fails(m, "update") \/ w.c[m].exc \/ w.c[m].ret # "OK"]_vars
\* C02: nothing of an asynchronous controller is left running when it is stopped
NothingRuns == \A n \in Loaded(w) : w.c[n].pend => Active(w, n)
=============================================================================

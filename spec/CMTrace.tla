------------------------------ MODULE CMTrace ------------------------------
(* Validates recorded executions of the real controller manager against CM. *)
(* Every recorded operation is one step: the expected outcome is computed   *)
(* from the previous world by the operators of CM and compared with what    *)
(* was recorded.  A step that differs ends the trace; bad collects the      *)
(* properties it contradicts and (in lower case) what differed.             *)
EXTENDS CM, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "RESET"}

VARIABLES l, w, bad, dead
vars == <<l, w, bad, dead>>

Set(x) == Range(x)
Fn(r) == [n \in DOMAIN r |-> r[n]]
If(c, s) == IF c THEN s ELSE {}
Bad(c, why, props) == IF c THEN {why} \cup props ELSE {}

InitWorld(e) == EmptyCM(e, Fn(e.ctls), Fn(e.pre), Fn(e.rx))

(* ----------------------------- recorded calls -------------------------- *)
Ctls == {"init", "configure", "activate", "deactivate", "cleanup", "shutdown", "error", "chain"}
Ph(p) == IF p = "t" THEN "s" ELSE p
IsCtl(x, k) == k.c \in DOMAIN x.d
\* callbacks of one controller (updates of asynchronous ones included), of one component
OfCtl(calls, n, as) ==
  LET s == SelectSeq(calls, LAMBDA k : k.c = n /\ (k.cb \in Ctls \/ (as /\ k.cb = "update"))) IN
  [i \in DOMAIN s |-> <<s[i].cb, s[i].st, Ph(s[i].ph), IF s[i].cb = "chain" THEN s[i].m ELSE FALSE>>]
OfHw(calls, n) ==
  LET s == SelectSeq(calls, LAMBDA k : k.c = n /\ k.cb \notin {"read", "write", "prepare", "perform", "init"}) IN
  [i \in DOMAIN s |-> <<s[i].cb, s[i].st>>]
As(x, n) == n \in Loaded(x) /\ x.c[n].as
CtlDiff(x, y, e) == {n \in DOMAIN x.d : OfCtl(y.log, n, As(x, n)) # OfCtl(e.calls, n, As(x, n))}
HwDiff(x, y, e) ==
  {n \in Names(y.rm) \cup Names(x.rm) : OfHw(y.log, n) # OfHw(e.calls, n)}
  \cup {k.c : k \in {e.calls[i] : i \in {j \in DOMAIN e.calls :
            /\ e.calls[j].c \notin DOMAIN x.d /\ e.calls[j].c \notin Names(y.rm)
            /\ e.calls[j].cb # "init"}}}
Updates(calls, x) == SelectSeq(calls, LAMBDA k : k.cb = "update" /\ ~As(x, k.c))
AsyncUpdates(calls, x) == SelectSeq(calls, LAMBDA k : k.cb = "update" /\ As(x, k.c))
Who(s) == [i \in DOMAIN s |-> s[i].c]
Pers(s) == [i \in DOMAIN s |-> s[i].p]
Rw(calls, cb) == SelectSeq(calls, LAMBDA k : k.cb = cb)
RwDiff(y, e, cb) ==
  LET a == Rw(y.log, cb) b == Rw(e.calls, cb) IN
  \/ Range(Who(a)) # Range(Who(b)) \/ Len(a) # Len(b)
  \/ \E i \in DOMAIN a, j \in DOMAIN b : a[i].c = b[j].c /\ a[i].p # -1 /\ Abs(a[i].p - b[j].p) > 2

\* requests to prepare / perform, in the order in which they were made
RECURSIVE ReqsOk(_, _, _)
ReqsOk(x, reqs, calls) ==
  IF reqs = <<>> THEN calls = <<>>
  ELSE LET r == Head(reqs)
           \* calls that belong to this request: same kind, each component at most once
           n == CHOOSE k \in 0..Len(calls) :
                  /\ \A i \in 1..k : calls[i].cb = r.cb
                  /\ \A i, j \in 1..k : i # j => calls[i].c # calls[j].c
                  /\ Cardinality(r.may) >= k
                  /\ \A i \in 1..k : /\ calls[i].c \in r.may
                                     /\ Set(calls[i].a) = r.a \cap Cmds(x.rm, calls[i].c)
                                     /\ Set(calls[i].b) = r.b \cap Cmds(x.rm, calls[i].c)
                  /\ \/ k = Len(calls) \/ k = Cardinality(r.may)
                     \/ ~(/\ calls[k + 1].cb = r.cb /\ calls[k + 1].c \in r.may
                          /\ \A i \in 1..k : calls[i].c # calls[k + 1].c
                          /\ Set(calls[k + 1].a) = r.a \cap Cmds(x.rm, calls[k + 1].c)
                          /\ Set(calls[k + 1].b) = r.b \cap Cmds(x.rm, calls[k + 1].c))
           asked == {calls[i].c : i \in 1..n}
       IN r.must \subseteq asked /\ ReqsOk(x, Tail(reqs), SubSeq(calls, n + 1, Len(calls)))
ModeCalls(e) == SelectSeq(e.calls, LAMBDA k : k.cb \in {"prepare", "perform"})

(* ------------------- values passed from controller to controller ------- *)
\* acc: [vals, bad]
Kn(vals, i, v) == i \in DOMAIN vals => vals[i] = v
Put(vals, S, v) == [i \in S |-> v] @@ vals
ValStep(x, acc, k) ==
  LET n == k.c
      refs == x.d[n].ref IN
  IF k.cb = "update"
  THEN LET chd == k.chd /\ refs # <<>>
           want == IF chd /\ Len(k.in) >= 1 THEN (IF k.in[1] = NaN THEN NaN ELSE k.in[1] + 1) ELSE x.v + x.d[n].k
           good == /\ (x.c[n].imp => (Len(k.in) = Len(refs) /\ \A j \in DOMAIN refs : Kn(acc.vals, refs[j], k.in[j])))
                   /\ \A j \in DOMAIN k.rs : (k.rs[j].v # 888888 /\ Kn(acc.vals, k.rs[j].i, k.rs[j].v))
           v1 == IF k.o # "OK" THEN acc.vals
                 ELSE Put(acc.vals, Set(k.l) \cup Exps(x, n), k.wv)
       IN [vals |-> v1,
           bad |-> acc.bad \cup Bad(~good, "values", {"M06", "C01", "D01"})
                   \cup Bad(~k.wok, "write refused", {"M04", "M10", "D01"})
                   \cup Bad(k.wv # want, "written", {"C01"})
                   \cup Bad(k.o = "OK" /\ Set(k.l) # Set(x.c[n].l), "loans used", {"M04"})]
  ELSE acc
\* hw calls: what is written to hardware is what was put there last
HwStep(x, acc, k) ==
  IF k.cb = "write"
  THEN [acc EXCEPT !.bad = @ \cup Bad(~x.par.limits /\ \E i \in DOMAIN Fn(k.v) : ~Kn(acc.vals, i, k.v[i]),
                                      "hardware values", {"L04", "M04"})]
  ELSE IF k.cb \in {"configure", "activate", "deactivate", "cleanup", "shutdown", "error"} /\ k.c \in Names(x.rm)
  THEN [acc EXCEPT !.vals = [i \in DOMAIN @ \ Cmds(x.rm, k.c) |-> @[i]]]
  ELSE acc
RECURSIVE ValAll(_, _, _)
ValAll(x, acc, calls) ==
  IF calls = <<>> THEN acc
  ELSE LET k == Head(calls) IN
       ValAll(x, IF k.c \in Loaded(x) THEN ValStep(x, acc, k) ELSE HwStep(x, acc, k), Tail(calls))

(* ------------------------------ final state ---------------------------- *)
Sid(st) == CASE st = "unconfigured" -> 1 [] st = "inactive" -> 2 [] st = "active" -> 3 [] OTHER -> 4
OwnIfs(x) == UNION {Refs(x, n) \cup Exps(x, n) : n \in DOMAIN x.d}
\* differences between the expected world y and the recorded state s; ops: properties of the operation
StateBad(y, s, ops) ==
  LET L == Loaded(y)
      ctl == Fn(s.ctl)
      own == Fn(s.own)
      named == DOMAIN ctl = L /\ DOMAIN own = L
      cfg(n) == y.c[n].st \in {"inactive", "active"}
      exact(n) == y.d[n].ct = "I"
      sexact(n) == y.d[n].stt = "I"
      any(P(_)) == \E n \in L : P(n)
      dst(n) == own[n].st # y.c[n].st
      asy == {n \in L : y.c[n].as /\ (own[n].st # y.c[n].st)}
      loans(n) == \/ IF exact(n) THEN own[n].l # y.c[n].l ELSE Set(own[n].l) # Set(y.c[n].l) \/ Len(own[n].l) # Len(y.c[n].l)
                  \/ IF sexact(n) THEN own[n].sl # y.c[n].sl
                     ELSE Set(own[n].sl) # Set(y.c[n].sl) \/ Len(own[n].sl) # Len(y.c[n].sl)
      chd(n) == own[n].chd # y.c[n].chd
      mine(S) == S \cap OwnIfs(y)
      hw(S) == S \ OwnIfs(y)
      rep(n) == \/ ctl[n].st # own[n].st \/ own[n].id # Sid(own[n].st) \/ own[n].n # 1
                \/ ctl[n].ty # y.d[n].type \/ ctl[n].as # y.c[n].as
                \/ ctl[n].able # Chainable(y, n) \/ ctl[n].chd # own[n].chd
      rate(n) == ctl[n].rate # y.c[n].rate
      lists(n) == \/ Set(ctl[n].cl) # (IF y.c[n].st = "active" THEN Range(CmdNames(y, n)) \cap Set(s.claimed) ELSE {})
                  \/ Set(ctl[n].rc) # (IF cfg(n) THEN Range(CmdNames(y, n)) ELSE {})
                  \/ Set(ctl[n].rs) # (IF cfg(n) THEN Range(StNames(y, n)) ELSE {})
                  \/ Set(ctl[n].conn) # (IF cfg(n) THEN {i \in Range(CmdNames(y, n)) : Owner(y, i) # ""} ELSE {})
      offered(n) == \/ {n \o "/" \o x : x \in Set(ctl[n].refs)} # (IF cfg(n) /\ y.c[n].imp THEN Refs(y, n) ELSE {})
                    \/ {n \o "/" \o x : x \in Set(ctl[n].exps)} # (IF cfg(n) /\ y.c[n].imp THEN Exps(y, n) ELSE {})
  IN IF s.init # y.init THEN Bad(TRUE, "initialised", {"H07", "H08"})
     ELSE IF ~named THEN Bad(TRUE, "controllers loaded", {"M01", "M11"} \cup ops)
     ELSE Bad(any(dst), "controller states", ops) \cup If(asy # {}, {"C02"})
          \cup Bad(any(loans), "loans", {"M04"} \cup ops)
          \cup Bad(any(chd), "chained mode", {"M05"} \cup ops)
          \cup Bad(any(rep), "listing", {"M11"})
          \cup Bad(any(rate), "rate", {"M07", "M11"})
          \cup Bad(any(lists), "listed interfaces", {"M11", "M04"})
          \cup Bad(any(offered), "listed exports", {"M11", "C01"})
          \cup Bad(Fn(s.comps) # y.rm.comps, "component states", ops \cup {"H01"})
          \cup Bad(mine(Set(s.acmd)) # mine(y.rm.acmd) \/ mine(Set(s.ast)) # mine(y.rm.ast), "exports on offer", {"M05", "H02"} \cup ops)
          \cup Bad(hw(Set(s.acmd)) # hw(y.rm.acmd) \/ hw(Set(s.ast)) # hw(y.rm.ast), "hardware interfaces on offer", {"H02"} \cup ops)
          \cup Bad(s.incons, "hardware listings", {"M11", "H02"})
          \cup Bad(Set(s.cmd) # AllCmds(y.rm) \cup UNION {Refs(y, n) : n \in {m \in L : y.c[m].imp}}
                   \/ Set(s.st) # UNION {Sts(y.rm, h) : h \in Names(y.rm)} \cup UNION {Exps(y, n) : n \in {m \in L : y.c[m].imp}},
                   "existing interfaces", {"M01", "H02", "C01", "M11"})
          \cup Bad(Set(s.claimed) # Claimed(y.rm), "claimed", {"H03", "M04", "M11"} \cup ops)
          \cup Bad(~Sorted(y, s.order), "order", {"M06"})
          \cup Bad(/\ ~s.pub.none
                   /\ (Fn(s.pub.ctl) # [n \in L |-> own[n].st] \/ Fn(s.pub.hw) # Fn(s.comps)), "published", {"M11"})
          \cup Bad(s.pub.none /\ L # {} /\ (\E n \in L : y.c[n].st # "unconfigured"), "not published", {"M11"})

(* --------------------------- operations -------------------------------- *)
Involved(x, e) == Set(e.act) \cup Set(e.dea)
Linked(x, n) == n \in Loaded(x) /\ (Chainable(x, n) \/ \E i \in Range(AllNames(x, n)) : Owner(x, i) # "")
OpProps(x, e) ==
  CASE e.op = "SWITCH" ->
         {IF Strictness(x, e.strict) THEN "M02" ELSE "M03"}
         \cup If(\E n \in Involved(x, e) : Linked(x, n), {"M05"})
         \cup If(\E n \in Involved(x, e) : As(x, n), {"C02"})
         \cup If(e.stall \/ e.mid, {"M10"})
    [] e.op \in {"LOADC", "CONF", "CLEAN", "UNLOAD", "RELOAD"} ->
         {"M01"} \cup If(e.op \in {"CONF", "CLEAN", "UNLOAD"} /\ e.c \in DOMAIN x.d /\ x.d[e.c].type = "chain", {"M05", "C01"})
         \cup If(e.op = "RELOAD", {"M03"})
    [] e.op = "SETHW" -> {"H01"}
    [] e.op = "START" -> {"H08"}
    [] e.op = "RUN" -> {"C02"}
    [] e.op = "CYCLE" ->
         LET hwbad == \E i \in DOMAIN e.calls : e.calls[i].c \in Names(x.rm) /\ e.calls[i].o # "OK"
             ubad == \/ \E i \in DOMAIN e.calls : e.calls[i].cb = "update" /\ e.calls[i].o # "OK"
                     \/ \E n \in Loaded(x) : Active(x, n) /\ (x.c[n].exc \/ x.c[n].ret # "OK")
         IN If(hwbad, {"M09"}) \cup If(ubad, {"M08"}) \cup If(~hwbad /\ ~ubad, {"M07", "M08", "M09"})
    [] OTHER -> {"UNKNOWN-OP"}

\* what can be compared after every operation
Common(x, y, e, ops) ==
  LET cd == CtlDiff(x, y, e)
      hd == HwDiff(x, y, e) IN
  Bad(cd # {}, "controller calls", ops \cup If(\E n \in cd : As(x, n), {"C02"})
                 \cup If(\E n \in cd : \E i \in DOMAIN e.calls : e.calls[i].c = n /\ e.calls[i].cb = "chain", {"M05"}))
  \cup Bad(hd # {}, "hardware calls", {"H01"} \cup ops \cup If(e.op = "CYCLE", {"H04"}))
  \cup Bad(~ReqsOk(y, y.reqs, ModeCalls(e)), "mode switch requests", {"H06"} \cup ops)
  \cup Bad(\E i \in DOMAIN e.calls : e.calls[i].cb = "subs", "reference input", {"C01"})
  \cup Bad(e.thrown /\ e.op # "START", "exception", ops)
  \cup StateBad(y, e.s, ops)
\* the control cycle that ends every request
TickBad(x, y, e) ==
  LET t == Fn(e.tick)
      due(n) == UDue(y, n, TRUE)
      notdue(n) == ~UDue(y, n, FALSE) IN
  Bad(\E n \in Loaded(y) : Active(y, n) /\ due(n) /\ ~UTie(y, n) /\ n \notin DOMAIN t, "no update", {"M07"} \cup If(x.c # y.c, {"M10"}))
  \cup Bad(\E n \in DOMAIN t : n \notin Loaded(y) /\ n \notin Loaded(x), "update of unloaded", {"M07", "M10"})
  \cup Bad(\E n \in DOMAIN t : n \in Loaded(y) /\ ~Active(y, n) /\ ~Active(x, n) /\ ~\E i \in DOMAIN e.calls : e.calls[i].c = n /\ e.calls[i].cb = "activate",
           "update of inactive", {"M07", "M10"})
  \cup Bad(\E n \in DOMAIN t : Active(y, n) /\ notdue(n) /\ ~y.c[n].as /\ ~x.c[n].pend, "early update", {"M07"})

\* <<next world, contradicted properties, stop>>
Finish(x, y, e, b) ==
  LET v == ValAll([y EXCEPT !.c = x.c], [vals |-> y.vals, bad |-> {}], e.calls)
      bb == b \cup v.bad
      z == [y EXCEPT !.ord = e.s.order, !.vals = [i \in (DOMAIN v.vals) |-> v.vals[i]],
                     !.log = <<>>, !.reqs = <<>>] IN
  <<IF bb = {} THEN z ELSE y, bb, bb # {}>>
Request(x, y, e) ==
  LET ops == OpProps(x, e)
      b == Bad(e.res # (IF y.ok THEN "OK" ELSE "ERROR"), "response", ops)
           \cup Common(x, y, e, ops) \cup TickBad(x, y, e)
  IN Finish(x, Tick(y, DOMAIN Fn(e.tick)), e, b)

Step(e) ==
  LET x == [w EXCEPT !.rm.ts = e.now, !.log = <<>>, !.reqs = <<>>, !.ok = TRUE, !.ph = "s"]
      op == e.op IN
  CASE op = "START" ->
         LET r == Start(x, e, e.order)
             b == Bad(e.res # (IF r.threw THEN "THROW" ELSE "OK"), "outcome", {"H08", "H07"})
                  \cup (IF r.threw THEN {} ELSE Common(x, r.w, e, OpProps(x, e))) IN
         IF r.threw THEN <<x, b, TRUE>> ELSE Finish(x, r.w, e, b)
    \* the next cycle reports the failure of an asynchronous update: not followed through other requests
    [] op \notin {"CYCLE", "RUN"} /\ (\E n \in Loaded(x) : Active(x, n) /\ (x.c[n].exc \/ x.c[n].ret # "OK")) -> <<x, {}, TRUE>>
    [] ~x.init -> <<x, Bad(e.res # "NOSRV" /\ op \notin {"CYCLE", "RUN"}, "service", {"H07"}), FALSE>>
    [] op = "LOADC" -> Request(x, LoadC(x, e.c, e), e)
    [] op = "CONF" -> Request(x, Configure(x, e.c, e), e)
    [] op = "CLEAN" -> Request(x, Clean(x, e.c, e), e)
    [] op = "UNLOAD" -> Request(x, Unload(x, e.c, e), e)
    [] op = "RELOAD" -> Request(x, Reload(x, e.force, e), e)
    [] op = "SWITCH" ->
         LET p == SwitchPlan(x, e)
             first(n) == CHOOSE i \in DOMAIN e.calls : /\ e.calls[i].c = n /\ e.calls[i].cb = "deactivate"
                           /\ \A j \in 1..(i - 1) : ~(e.calls[j].c = n /\ e.calls[j].cb = "deactivate")
             has(n) == \E i \in DOMAIN e.calls : e.calls[i].c = n /\ e.calls[i].cb = "deactivate"
             late == \E n \in Set(p.dea) : has(n) /\ \E j \in 1..first(n) : e.calls[j].cb = "activate"
             r == Request(x, p.w, e)
             b == Bad(late, "order of the switch", OpProps(x, e) \cup {"M04"}) IN
         <<r[1], r[2] \cup b, r[3] \/ b # {}>>
    [] op = "SETHW" ->
         LET r == SetState(x.rm, e.c, e.to, e)
             y == [FromRM(x, r) EXCEPT !.ok = r.res] IN
         Request(x, y, e)
    [] op = "RUN" ->
         LET y == FlushAll([x EXCEPT !.v = e.v, !.ph = "a"], x.ord, e)
             a == AsyncUpdates(y.log, x)
             b == AsyncUpdates(e.calls, x) IN
         Finish(x, y, e, Bad(Updates(e.calls, x) # <<>>, "synchronous update", {"C02", "M07"})
                \cup Bad(\E i \in DOMAIN a, j \in DOMAIN b : a[i].c = b[j].c /\ Abs(a[i].p - b[j].p) > 2, "period", {"C02", "M07"})
                \cup Common(x, y, e, {"C02"}))
    [] op = "CYCLE" ->
         LET xx == [x EXCEPT !.v = e.v]
             seen == {e.calls[i].c : i \in {j \in DOMAIN e.calls : e.calls[j].cb = "update" /\ ~As(x, e.calls[j].c)}}
             y == FullCycle(xx, e, e.calls, seen)
             a == Updates(y.log, x)
             b == Updates(e.calls, x)
             aa == AsyncUpdates(y.log, x)
             ab == AsyncUpdates(e.calls, x)
             ops == OpProps(x, e) IN
         Finish(xx, y, e,
           Bad(e.res # (IF y.ok THEN "OK" ELSE "ERROR"), "result of the update", {"M08"})
           \cup (IF Range(Who(a)) # Range(Who(b)) \/ Len(a) # Len(b) THEN {"updated controllers", "M07"} \cup ops
                 ELSE Bad(Who(a) # Who(b), "order of updates", {"M06"})
                      \cup Bad(\E i \in DOMAIN a, j \in DOMAIN b : a[i].c = b[j].c /\ Abs(a[i].p - b[j].p) > 2, "period", {"M07"}))
           \cup Bad(\E i \in DOMAIN aa, j \in DOMAIN ab : aa[i].c = ab[j].c /\ Abs(aa[i].p - ab[j].p) > 2, "period", {"C02", "M07"})
           \cup Bad(RwDiff(y, e, "read") \/ RwDiff(y, e, "write"), "reads and writes", {"H05", "H01"})
           \cup Common(xx, y, e, ops))
    [] OTHER -> <<x, {"UNKNOWN-OP"}, TRUE>>

Init == \E k \in Starts : l = k /\ bad = {} /\ dead = FALSE /\ w = InitWorld(Log[k])
Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E s \in {Step(Log[l + 1])} :
       /\ w' = s[1] /\ bad' = s[2] /\ dead' = s[3]
       /\ s[2] # {} => PrintT(<<"BAD", ToString(s[2]), l + 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================

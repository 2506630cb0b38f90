--------------------------------- MODULE CM ---------------------------------
(***************************************************************************)
(* The controller manager on top of the resource manager (module RM):      *)
(* loading, configuring, switching, chaining, updating and stopping of     *)
(* controllers, as functions of a world.                                   *)
(*                                                                         *)
(*  rm    : the world of the resource manager (controllers' exported       *)
(*          interfaces are in rm.acmd / rm.ast while they are on offer)    *)
(*  init  : a robot description has been accepted                          *)
(*  par   : parameters of the manager   cmrate : its update rate           *)
(*  d     : name -> static description of a controller                     *)
(*  pre   : interface -> part of its name before the first slash           *)
(*  rx    : regular expression -> known interface names it matches         *)
(*  c     : loaded controller -> [st lifecycle state, chd chained mode,    *)
(*          l, sl loaned command / state interfaces, last time of the last *)
(*          update (0: not updated since activation), grp chain group,     *)
(*          rate, as, info, imp exported interfaces are known, pend, per,  *)
(*          ret, exc : asynchronous update under way and its last result]  *)
(*  ord   : order in which controllers are updated                         *)
(*  sp    : controller -> [f, p] following and preceding controllers       *)
(*  cr,cs : controller -> users of its references / exported states        *)
(*  hwc   : hardware -> controllers that have used it since its start      *)
(*  vals  : interface -> value last written, where known                   *)
(*  v     : value written by controllers that are not in chained mode      *)
(*  log   : callbacks made so far in this operation; reqs : requests to    *)
(*          switch command modes; ok : result; ph : phase                  *)
(***************************************************************************)
EXTENDS RM

NaN == 999999
Loaded(w) == DOMAIN w.c
St(w, n) == w.c[n].st
Active(w, n) == n \in Loaded(w) /\ w.c[n].st = "active"
Inactive(w, n) == n \in Loaded(w) /\ w.c[n].st = "inactive"
Configured(w, n) == n \in Loaded(w) /\ w.c[n].st \in {"inactive", "active"}
Chainable(w, n) == w.d[n].type = "chain"
Refs(w, n) == Range(w.d[n].ref)
Exps(w, n) == Range(w.d[n].exp)
ListOf(w, S) == SelectSeq(w.ord, LAMBDA n : n \in S)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Uniq(s) == Len(s) = Cardinality(Range(s))
AddItem(s, x) == IF x \in Range(s) THEN s ELSE Append(s, x)
RECURSIVE AddItems(_, _)
AddItems(s, t) == IF t = <<>> THEN s ELSE AddItems(AddItem(s, Head(t)), Tail(t))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

EmptyCM(e, d, pre, rx) ==
  [rm |-> EmptyWorld([cmrate |-> e.cmrate, allow |-> e.params.allow, retn |-> e.params.retn, order |-> <<>>, c |-> <<>>]),
   init |-> FALSE, par |-> e.params, cmrate |-> e.cmrate, d |-> d, pre |-> pre, rx |-> rx,
   c |-> <<>>, ord |-> <<>>, sp |-> <<>>, cr |-> <<>>, cs |-> <<>>, hwc |-> <<>>, vals |-> <<>>, v |-> 0,
   log |-> <<>>, reqs |-> <<>>, ok |-> TRUE, ph |-> "s"]

Note(w, r) == [w EXCEPT !.log = Append(@, r)]
Say(w, n, cb, st) == Note(w, [c |-> n, cb |-> cb, st |-> st, ph |-> w.ph])

(* ------------------------ interfaces a controller asks for ------------- *)
OnOffer(S, names) == SelectSeq(names, LAMBDA i : i \in S)
Wish(w, t, names, pat, S) ==
  CASE t = "I" -> names
    [] t = "ALL" -> SetToSeq(S)
    [] t = "BE" -> OnOffer(S, names)
    [] t = "RX" -> Flat([k \in DOMAIN pat |-> OnOffer(S, w.rx[pat[k]])])
    [] OTHER -> <<>>
CmdNames(w, n) == Wish(w, w.d[n].ct, w.d[n].cmd, w.d[n].pat, w.rm.acmd)
StNames(w, n) == Wish(w, w.d[n].stt, w.d[n].st, w.d[n].spat, w.rm.ast)
AllNames(w, n) == CmdNames(w, n) \o StNames(w, n)
Owner(w, i) == IF i \in DOMAIN w.pre /\ w.pre[i] \in Loaded(w) THEN w.pre[i] ELSE ""
CmdClaimed(w, i) == i \in Claimed(w.rm)
\* chained behind one of S: depends on an interface of a controller of S (only who asks for
\* specific interfaces depends on them)
Fixed(w, n) == (IF w.d[n].ct = "I" THEN Range(w.d[n].cmd) ELSE {}) \cup (IF w.d[n].stt = "I" THEN Range(w.d[n].st) ELSE {})
Uses(w, n, S) == \E i \in Fixed(w, n) : i \in DOMAIN w.pre /\ w.pre[i] \in S
RECURSIVE Behind(_, _)
Behind(w, S) ==
  LET T == {n \in Loaded(w) : Active(w, n) /\ n \notin S /\ Uses(w, n, S)} IN
  IF S = {} \/ T = {} THEN S ELSE Behind(w, S \cup T)

OfferX(w, n) == IF ~w.c[n].imp THEN w
                ELSE [w EXCEPT !.rm.acmd = @ \cup Refs(w, n), !.rm.ast = @ \cup Exps(w, n)]
WithdrawX(w, n) == IF ~w.c[n].imp THEN w
                   ELSE [w EXCEPT !.rm.acmd = @ \ Refs(w, n), !.rm.ast = @ \ Exps(w, n)]
Forget(w, S) == [w EXCEPT !.vals = [i \in DOMAIN @ \ S |-> @[i]]]
Store(w, S, v) == [w EXCEPT !.vals = [i \in S |-> v] @@ @]
RemoveX(w, n) ==
  IF ~w.c[n].imp THEN w
  ELSE Forget([WithdrawX(w, n) EXCEPT !.c[n].imp = FALSE], Refs(w, n) \cup Exps(w, n))
\* interfaces of a controller that is not in use are not on offer
Tidy(w, n) == IF Inactive(w, n) /\ Chainable(w, n) THEN WithdrawX(w, n) ELSE w

Drop(w, n) == [w EXCEPT !.rm.held = @ \ Range(w.c[n].l), !.c[n].l = <<>>, !.c[n].sl = <<>>]
Take(w, n, l, sl) == [Drop(w, n) EXCEPT !.rm.held = @ \cup Range(l), !.c[n].l = l, !.c[n].sl = sl]

(* -------------------- life cycle of a single controller ---------------- *)
Refused(cb) == CASE cb = "configure" -> "unconfigured" [] cb = "deactivate" -> "active"
                 [] cb = "shutdown" -> "finalized" [] OTHER -> "inactive"
CT(w, n, cb, o) ==
  LET st == St(w, n)
      out == OutOf(o, n, cb)
      w1 == Say(w, n, cb, st)
      w2 == Say(w1, n, "error", st) IN
  IF st \notin From(cb) THEN w
  ELSE IF out = "OK"
  THEN LET x == [w1 EXCEPT !.c[n].st = Goal(cb)] IN
       IF cb = "shutdown" THEN Drop(x, n)
       ELSE IF cb = "activate" THEN [x EXCEPT !.c[n].pend = FALSE, !.c[n].ret = "OK", !.c[n].exc = FALSE] ELSE x
  ELSE IF out = "F"
  THEN LET x == [w1 EXCEPT !.c[n].st = Refused(cb)] IN IF cb = "shutdown" THEN Drop(x, n) ELSE x
  ELSE Drop([w2 EXCEPT !.c[n].st = IF OutOf(o, n, "error") = "OK" THEN "unconfigured" ELSE "finalized"], n)

SetChained(w, n, m, o) ==
  IF Active(w, n) THEN w
  ELSE LET w1 == Note(w, [c |-> n, cb |-> "chain", st |-> St(w, n), ph |-> w.ph, m |-> m]) IN
       IF OutOf(o, n, "chain") = "OK" THEN [w1 EXCEPT !.c[n].chd = m] ELSE w1

(* ------------------------------ updates -------------------------------- *)
\* the update of an asynchronous controller that was triggered is carried out
Flush(w, n, o) ==
  IF ~w.c[n].pend THEN w
  ELSE LET out == OutOf(o, n, "update")
           w1 == Note(w, [c |-> n, cb |-> "update", st |-> St(w, n), ph |-> w.ph, p |-> w.c[n].per]) IN
       [w1 EXCEPT !.c[n].pend = FALSE, !.c[n].ret = IF out = "X" THEN @ ELSE out,
                  !.c[n].exc = @ \/ out = "X"]
AtCmRate(w, n) == w.c[n].rate >= w.cmrate
UElapsed(w, n) == IF w.c[n].last = 0 THEN 1000000 \div w.c[n].rate ELSE w.rm.ts - w.c[n].last
UNow(w, n) == Abs(UElapsed(w, n) * w.c[n].rate - 1000000)
USkip(w, n) == Abs((UElapsed(w, n) + 1000000 \div w.cmrate) * w.c[n].rate - 1000000)
\* so close that rounding decides
UTie(w, n) == ~AtCmRate(w, n) /\ w.c[n].last # 0 /\ Abs(UNow(w, n) - USkip(w, n)) <= 2 * w.c[n].rate
UDue(w, n, seen) ==
  \/ AtCmRate(w, n) \/ w.c[n].last = 0
  \/ IF UTie(w, n) THEN seen ELSE UNow(w, n) < USkip(w, n)
UPeriod(w, n, p) == IF w.c[n].last = 0 /\ AtCmRate(w, n) THEN p ELSE UElapsed(w, n)

(* ------------------- groups of controllers change state ---------------- *)
RECURSIVE Deactivate(_, _, _)
Deactivate(w, list, o) ==
  IF list = <<>> THEN w
  ELSE LET n == Head(list) IN
       IF ~Active(w, n) THEN Deactivate(w, Tail(list), o)
       ELSE LET w1 == CT(Flush(w, n, o), n, "deactivate", o)
                w2 == Drop(w1, n)
                w3 == IF Chainable(w, n) THEN WithdrawX(SetChained(w2, n, FALSE, o), n) ELSE w2
            IN Deactivate(IF Active(w1, n) THEN w1 ELSE w3, Tail(list), o)

RECURSIVE Chain(_, _, _, _)
Chain(w, list, m, o) ==
  IF list = <<>> THEN w
  ELSE Chain(IF Head(list) \in Loaded(w) THEN SetChained(w, Head(list), m, o) ELSE w, Tail(list), m, o)

ModeReq(w, cb, a, b, o) ==
  IF a = <<>> /\ b = <<>> THEN [w EXCEPT !.ok = TRUE]
  ELSE LET r == Mode(w.rm, a, b, o, cb) IN
       [w EXCEPT !.ok = r.res,
                 !.reqs = Append(@, [cb |-> cb, a |-> Range(a), b |-> Range(b), must |-> r.must, may |-> r.may])]
PrepPerf(w, a, b, o) ==
  LET w1 == ModeReq(w, "prepare", a, b, o) IN
  IF a = <<>> /\ b = <<>> THEN w ELSE IF w1.ok THEN ModeReq(w1, "perform", a, b, o) ELSE w1

HwOf(w, names) == {h \in Names(w.rm) : Range(names) \cap (Cmds(w.rm, h) \cup Sts(w.rm, h)) # {}}
\* acc: [w, good, fi (command interfaces of failed ones), fc (failed ones)]
ActOne(acc, n, o) ==
  LET w == acc.w
      cn == CmdNames(w, n)
      sn == StNames(w, n)
      \* (an interface wished for twice is taken by the first wish)
      free == Cardinality(Range(cn)) = Len(cn) /\ \A i \in Range(cn) : i \in w.rm.acmd /\ ~CmdClaimed(w, i)
      there == Range(sn) \subseteq w.rm.ast
      w1 == [w EXCEPT !.c[n].last = 0]
      w2 == CT(Take(w1, n, cn, sn), n, "activate", o) IN
  IF n \notin Loaded(w) THEN acc
  ELSE IF ~Configured(w, n) THEN [acc EXCEPT !.good = FALSE]
  ELSE IF ~free \/ ~there
  THEN IF Chainable(w, n) /\ ~Active(w, n)
       THEN [acc EXCEPT !.w = WithdrawX(w1, n), !.good = FALSE, !.fc = @ \cup {n}]
       ELSE [acc EXCEPT !.w = w1, !.good = FALSE]
  ELSE IF ~Active(w2, n)
  THEN LET w3 == Drop(w2, n) IN
       [w |-> IF Chainable(w, n) THEN WithdrawX(w3, n) ELSE w3, good |-> FALSE,
        fi |-> acc.fi \cup Range(cn), fc |-> acc.fc \cup {n}]
  ELSE LET w3 == [w2 EXCEPT !.hwc = [h \in DOMAIN @ |-> IF h \in HwOf(w, cn \o sn) THEN @[h] \cup {n} ELSE @[h]]] IN
       [acc EXCEPT !.w = IF Chainable(w, n) THEN OfferX(w3, n) ELSE w3]
RECURSIVE ActAll(_, _, _)
ActAll(acc, list, o) == IF list = <<>> THEN acc ELSE ActAll(ActOne(acc, Head(list), o), Tail(list), o)
RECURSIVE OfferAll(_, _)
OfferAll(w, list) ==
  IF list = <<>> THEN w
  ELSE LET n == Head(list) IN
       OfferAll(IF Configured(w, n) /\ Chainable(w, n) THEN OfferX(w, n) ELSE w, Tail(list))
\* asked: command interfaces of the switch under way that have to be given back
Activate(w, list, strict, asked, o) ==
  LET r == ActAll([w |-> OfferAll(w, list), good |-> TRUE, fi |-> {}, fc |-> {}], list, o)
      all == Behind(r.w, r.fc)
      fi == r.fi \cup UNION {Range(CmdNames(r.w, n)) : n \in {m \in all : Active(r.w, m)}} IN
  IF ~r.good /\ strict
  THEN PrepPerf(Deactivate(r.w, list, o), <<>>, asked, o)
  ELSE PrepPerf(Deactivate(r.w, ListOf(w, all), o), <<>>, SetToSeq(fi), o)

CmdsOf(w, S) == UNION {Range(CmdNames(w, n)) : n \in {m \in S : Configured(w, m)}}
TellHw(w, start, stop, o) == PrepPerf(w, SetToSeq(CmdsOf(w, start)), SetToSeq(CmdsOf(w, stop)), o)
\* controllers are stopped because of a failure
StopAll(w, S, start, o) == Deactivate(TellHw(w, start, S, o), ListOf(w, S), o)

(* --------------------------- requests by services ---------------------- *)
NewCtl(w) == [st |-> "unconfigured", chd |-> FALSE, l |-> <<>>, sl |-> <<>>, last |-> 0, grp |-> <<>>, rate |-> w.cmrate,
              as |-> FALSE, info |-> {}, imp |-> FALSE, pend |-> FALSE, per |-> 0, ret |-> "OK", exc |-> FALSE]
Fail(w) == [w EXCEPT !.ok = FALSE]
Good(w) == [w EXCEPT !.ok = TRUE]
LoadC(w, n, o) ==
  IF n \notin DOMAIN w.d \/ n \in Loaded(w) THEN Fail(w)
  ELSE IF w.d[n].type = "none" \/ n \in Range(w.d[n].fb) THEN Fail(w)
  ELSE LET w1 == Say(w, n, "init", "unconfigured") IN
       IF OutOf(o, n, "init") # "OK"
       THEN Fail(IF OutOf(o, n, "init") = "X" THEN w1 ELSE [w EXCEPT !.log = CT([w1 EXCEPT !.c = (n :> NewCtl(w)) @@ @], n, "shutdown", o).log])
       ELSE Good([w1 EXCEPT !.c = (n :> NewCtl(w)) @@ @, !.ord = Append(@, n),
                            !.sp = (n :> [f |-> <<>>, p |-> <<>>]) @@ @, !.cr = (n :> {}) @@ @, !.cs = (n :> {}) @@ @])

CleanSpec(w, n, o) ==
  LET w1 == CT(w, n, "cleanup", o)
      w2 == IF Inactive(w1, n) \/ ~Chainable(w, n) THEN w1 ELSE RemoveX(w1, n)
  IN IF St(w2, n) = "unconfigured" THEN Good(w2) ELSE Fail(w2)
Clean(w, n, o) ==
  IF n \notin Loaded(w) THEN Fail(w)
  ELSE CASE St(w, n) = "unconfigured" -> Good(w)
         [] St(w, n) = "inactive" -> CleanSpec(w, n, o)
         [] OTHER -> Fail(w)

\* rate that can be reached with whole cycles of the manager
WishedRate(w, n) == IF w.d[n].rate = 0 THEN w.cmrate ELSE w.d[n].rate
RateOf(w, n) ==
  LET u == WishedRate(w, n) IN
  IF u > w.c[n].rate THEN w.c[n].rate
  ELSE IF w.cmrate % u = 0 THEN u ELSE w.cmrate \div ((2 * w.cmrate + u) \div (2 * u))

\* who follows and precedes whom, derived from the interfaces asked for
Links(w) ==
  LET edge(n, i, cmd) == [n |-> n, o |-> Owner(w, i), cmd |-> cmd]
      of(n) == IF St(w, n) = "unconfigured" THEN <<>>
               ELSE LET a == CmdNames(w, n) b == StNames(w, n) IN
                    [k \in DOMAIN a |-> edge(n, a[k], TRUE)] \o [k \in DOMAIN b |-> edge(n, b[k], FALSE)]
  IN SelectSeq(Flat([k \in DOMAIN w.ord |-> of(w.ord[k])]), LAMBDA x : x.o # "")
RECURSIVE AddLinks(_, _)
AddLinks(w, todo) ==
  IF todo = <<>> THEN w
  ELSE LET x == Head(todo) IN
       AddLinks(IF x.cmd
                THEN [w EXCEPT !.sp[x.n].f = AddItem(@, x.o), !.sp[x.o].p = AddItem(@, x.n), !.cr[x.o] = @ \cup {x.n}]
                ELSE [w EXCEPT !.sp[x.n].p = AddItem(@, x.o), !.sp[x.o].f = AddItem(@, x.n), !.cs[x.o] = @ \cup {x.n}],
                Tail(todo))
RECURSIVE Reach(_, _, _)
RECURSIVE ReachEach(_, _, _)
Reach(sp, n, seen) == IF n \notin DOMAIN sp THEN seen
                      ELSE ReachEach(sp, sp[n].p, ReachEach(sp, sp[n].f, AddItem(seen, n)))
ReachEach(sp, todo, seen) ==
  IF todo = <<>> THEN seen
  ELSE ReachEach(sp, Tail(todo), IF Head(todo) \in Range(seen) THEN seen ELSE Reach(sp, Head(todo), seen))
Topology(w) ==
  LET w0 == [w EXCEPT !.sp = [n \in Loaded(w) |-> [f |-> <<>>, p |-> <<>>]],
                      !.cr = [n \in Loaded(w) |-> {}], !.cs = [n \in Loaded(w) |-> {}]]
      w1 == AddLinks(w0, Links(w))
  IN [w1 EXCEPT !.c = [n \in Loaded(w) |-> [w1.c[n] EXCEPT !.grp = Reach(w1.sp, n, <<>>)]]]
PosIn(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
\* an order of update in which nobody comes before one of its preceding controllers
\* (controllers that precede one another in a circle cannot be sorted)
RECURSIVE Circular(_, _)
Circular(w, S) ==
  LET F == {n \in S : Range(w.sp[n].p) \cap (S \ {n}) = {}} IN
  IF S = {} THEN FALSE ELSE F = {} \/ Circular(w, S \ F)
Sorted(w, s) ==
  /\ Range(s) = Loaded(w) /\ Uniq(s)
  /\ Circular(w, Loaded(w)) \/ \A n \in Loaded(w) : \A p \in Range(w.sp[n].p) \cap Loaded(w) : p # n => PosIn(s, p) < PosIn(s, n)
RECURSIVE TopoSort(_, _)
TopoSort(w, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE LET free == SelectSeq(todo, LAMBDA n : Range(w.sp[n].p) \cap (Range(todo) \ {n}) = {})
           n == IF free = <<>> THEN Head(todo) ELSE Head(free)
       IN <<n>> \o TopoSort(w, Without(todo, n))

Configure(w, n, o) ==
  IF n \notin Loaded(w) \/ St(w, n) \in {"active", "finalized"} THEN Fail(w)
  ELSE LET w1 == IF Inactive(w, n) THEN CleanSpec(w, n, o) ELSE Good(w)
           w2 == IF Chainable(w, n) THEN RemoveX(w1, n) ELSE w1
           w3 == [w2 EXCEPT !.c[n].rate = RateOf(w, n), !.c[n].as = w.d[n].as, !.c[n].pend = FALSE,
                            !.c[n].ret = "OK", !.c[n].exc = FALSE]
           w4 == CT(w3, n, "configure", o)
           bad == OutOf(o, n, "export") \in {"X", "N"} \/ (w.d[n].ref = <<>> /\ w.d[n].exp = <<>>)
           w5 == IF ~Chainable(w, n) THEN w4
                 ELSE SetChained(Store([w4 EXCEPT !.c[n].imp = TRUE], Refs(w, n) \cup Exps(w, n), NaN), n, FALSE, o)
           giveup(x) == Fail(CleanSpec(x, n, o))
       IN IF ~w1.ok THEN w1
          ELSE IF WishedRate(w, n) < 0 THEN Fail(w2)
          ELSE IF St(w4, n) # "inactive" THEN Fail(w4)
          ELSE IF Chainable(w, n) /\ bad THEN giveup(w4)
          ELSE IF ~Uniq(CmdNames(w5, n)) \/ ~Uniq(StNames(w5, n)) THEN giveup(w5)
          ELSE Good(Topology(w5))

Erase(w, n) ==
  LET sp1 == [m \in DOMAIN w.sp \ {n} |->
                [f |-> IF m \in Range(w.sp[n].p) THEN Without(w.sp[m].f, n) ELSE w.sp[m].f,
                 p |-> IF m \in Range(w.sp[n].f) THEN Without(w.sp[m].p, n) ELSE w.sp[m].p]] IN
  [w EXCEPT !.c = [m \in DOMAIN @ \ {n} |-> @[m]], !.ord = Without(@, n), !.sp = sp1]
Unload(w, n, o) ==
  IF n \notin Loaded(w) \/ Active(w, n) THEN Fail(w)
  ELSE LET w1 == Clean(w, n, o) IN
       IF ~w1.ok THEN w1
       ELSE Good(Erase(CT(w1, n, "shutdown", o), n))

(* ------------------------------- switching ----------------------------- *)
\* every interface of another controller that n asks for is or becomes usable
RECURSIVE FollowingOk(_, _, _, _)
FollowingOk(w, n, act, dea) ==
  LET cn == CmdNames(w, n) sn == StNames(w, n)
      ok(i) ==
        LET f == Owner(w, i) IN
        IF f = "" THEN TRUE
        ELSE IF ~Chainable(w, f) THEN FALSE
        ELSE IF Active(w, f)
        THEN IF f \in Range(dea) /\ f \notin Range(act)
             THEN (i \in Range(sn) /\ w.d[n].stt = "ALL") \/ (i \in Range(cn) /\ w.d[n].ct = "ALL")
             ELSE FollowingOk(w, f, act, dea)
        ELSE f \in Range(act) /\ Inactive(w, f) /\ FollowingOk(w, f, act, dea)
  IN \A i \in Range(cn) \cup Range(sn) : ok(i)
\* fallback controllers have to be ready
FallbackOk(w, n) ==
  LET fb == w.d[n].fb
      reachable(i, offered, isref) ==
        LET f == Owner(w, i) IN
        \/ i \in offered
        \/ /\ f # ""
           /\ Inactive(w, f) => f \in Range(fb) /\ i \in (IF isref THEN Refs(w, f) ELSE Exps(w, f))
  IN \A k \in DOMAIN fb :
       /\ Configured(w, fb[k])
       /\ \A i \in Range(CmdNames(w, fb[k])) : reachable(i, w.rm.acmd, TRUE)
       /\ \A i \in Range(StNames(w, fb[k])) : reachable(i, w.rm.ast, FALSE)
ActOk(w, n, act, dea) ==
  /\ Inactive(w, n) \/ (Active(w, n) /\ n \in Range(dea))
  /\ FollowingOk(w, n, act, dea) /\ FallbackOk(w, n)
DeaOk(w, n, act, dea) ==
  /\ Active(w, n)
  /\ Chainable(w, n) =>
       \A p \in (w.cr[n] \cup w.cs[n]) \cap Loaded(w) :
          /\ ~(Inactive(w, p) /\ p \in Range(act))
          /\ ~(Active(w, p) /\ p \notin Range(dea))
\* s: [w, act, dea, ok]; in a best effort switch what cannot be done is left out
RECURSIVE CheckAct(_, _, _)
CheckAct(s, k, strict) ==
  IF k > Len(s.act) THEN s
  ELSE IF ActOk(s.w, s.act[k], s.act, s.dea) THEN CheckAct(s, k + 1, strict)
  ELSE IF strict THEN [s EXCEPT !.ok = FALSE]
  ELSE CheckAct([s EXCEPT !.w = Tidy(s.w, s.act[k]), !.act = RemoveAt(@, k)], 1, strict)
RECURSIVE CheckDea(_, _, _)
CheckDea(s, k, strict) ==
  IF k > Len(s.dea) THEN s
  ELSE IF DeaOk(s.w, s.dea[k], s.act, s.dea) THEN CheckDea(s, k + 1, strict)
  ELSE IF strict THEN [s EXCEPT !.ok = FALSE]
  ELSE CheckDea([s EXCEPT !.dea = RemoveAt(@, k)], 1, strict)

\* controllers that have to enter / leave chained mode
ToFrom(w, act, dea) ==
  LET user(p, f) == p # f /\ Configured(w, p) /\ \E i \in Range(CmdNames(w, p)) : Owner(w, i) = f
      after(p) == p \in Range(act) \/ (Active(w, p) /\ p \notin Range(dea))
      used(f) == \E p \in Loaded(w) : user(p, f) /\ after(p)
      loses(f) == \E p \in Loaded(w) : user(p, f) /\ ~after(p) /\ Active(w, p)
      F == {f \in Loaded(w) : Chainable(w, f) /\ Configured(w, f)}
  IN [to |-> {f \in F : used(f) /\ after(f) /\ (~w.c[f].chd \/ f \in Range(dea))},
      from |-> {f \in F : ~used(f) /\ loses(f) /\ w.c[f].chd}]

\* s: [w, act, dea, a, b, ok]
RECURSIVE Resolve(_, _, _, _)
Resolve(s, todo, tf, strict) ==
  IF todo = <<>> \/ ~s.ok THEN s
  ELSE LET n == Head(todo)
           w == s.w
           re == n \in tf.to \cup tf.from /\ Active(w, n) /\ n \notin Range(s.dea)
           act == IF re THEN Append(s.act, n) ELSE s.act
           dea == IF re THEN Append(s.dea, n) ELSE s.dea
           inA == n \in Range(act)
           inD == n \in Range(dea)
           conflict == inA /\ ~inD /\ ~Inactive(w, n)
           keep == inA /\ ~conflict
       IN IF conflict /\ strict THEN [s EXCEPT !.ok = FALSE]
          ELSE Resolve([s EXCEPT !.act = IF conflict THEN RemoveAt(act, PosIn(act, n)) ELSE act, !.dea = dea,
                                 !.a = IF keep /\ Configured(w, n) THEN @ \o CmdNames(w, n) ELSE @,
                                 !.b = IF inD /\ Configured(w, n) THEN @ \o CmdNames(w, n) ELSE @],
                       Tail(todo), tf, strict)

\* every interface is there and no command interface will have two owners
Takes(w, n) == IF w.d[n].ct = "I" THEN w.d[n].cmd ELSE SetToSeq(w.c[n].info)
RECURSIVE FreeFor(_, _, _, _)
FreeFor(w, todo, freed, taken) ==
  IF todo = <<>> THEN TRUE
  ELSE LET cn == CmdNames(w, Head(todo)) IN
       /\ Uniq(cn)
       /\ \A i \in Range(cn) : i \in w.rm.acmd /\ (CmdClaimed(w, i) => i \in freed) /\ i \notin taken
       /\ Range(StNames(w, Head(todo))) \subseteq w.rm.ast
       /\ FreeFor(w, Tail(todo), freed, taken \cup Range(cn))
Possible(w, act, dea) ==
  LET own(S) == UNION {Range(Takes(w, n)) : n \in S} IN
  FreeFor(w, SelectSeq(act, LAMBDA n : n \notin Range(dea)), own(Range(dea)), own(Range(dea) \cap Range(act)))

RECURSIVE TidyAll(_, _)
TidyAll(w, list) == IF list = <<>> THEN w ELSE TidyAll(Tidy(w, Head(list)), Tail(list))
RECURSIVE FlushAll(_, _, _)
FlushAll(w, list, o) ==
  IF list = <<>> THEN w
  ELSE FlushAll(IF Head(list) \in Loaded(w) THEN Flush(w, Head(list), o) ELSE w, Tail(list), o)
Settle(w) == [w EXCEPT !.c = [n \in DOMAIN @ |-> [@[n] EXCEPT !.pend = FALSE]]]

Known(w, list) == SelectSeq(list, LAMBDA n : n \in Loaded(w))
\* names of controllers that do not exist: an error in a strict switch, ignored in a best effort
\* switch as long as another one remains
ListOk(w, list, strict) ==
  IF strict THEN Range(list) \subseteq Loaded(w)
  ELSE list = <<>> \/ list[Len(list)] \in Loaded(w) \/ Known(w, list) # <<>>
Strictness(w, s) == IF s = 0 THEN w.par.strict = "strict" ELSE s = 2

\* the part carried out in step with the control loop
Perform(s, strict, o) ==
  LET w1 == ModeReq(s.w, "perform", s.a, s.b, o)
      w2 == Deactivate(w1, s.dea, o)
      w3 == Chain(Chain(w2, ListOf(w2, s.tf.to), TRUE, o), ListOf(w2, s.tf.from), FALSE, o)
      w4 == Activate(w3, s.act, strict, s.a, o)
  IN IF (s.a # <<>> \/ s.b # <<>>) /\ ~w1.ok THEN w1 ELSE w4
Evaluate(w, act, dea) ==
  LET good == /\ \A n \in Range(act) : Active(w, n)
              /\ \A n \in Range(dea) \ Range(act) : ~Active(w, n)
  IN [w EXCEPT !.ok = good,
               !.c = [n \in DOMAIN @ |-> [@[n] EXCEPT !.info = IF Active(w, n) THEN Range(CmdNames(w, n)) ELSE {}]]]

\* e: [act, dea, strict, stall]; also yields what was planned: [w, act, dea]
SwitchPlan(w, e) ==
  LET strict == Strictness(w, e.strict)
      act0 == Known(w, e.act)
      dea0 == Known(w, e.dea)
      stop(x) == [w |-> Fail(x), act |-> <<>>, dea |-> <<>>]
      none(x, s) == [w |-> Good(TidyAll(x, s.act)), act |-> <<>>, dea |-> <<>>]
      w1 == OfferAll(w, SelectSeq(act0, LAMBDA n : Inactive(w, n)))
      s1 == CheckAct([w |-> w1, act |-> act0, dea |-> dea0, ok |-> TRUE], 1, strict)
      s2 == IF s1.ok THEN CheckDea(s1, 1, strict) ELSE s1
      tf == ToFrom(s2.w, s2.act, s2.dea)
      s3 == Resolve([w |-> s2.w, act |-> s2.act, dea |-> s2.dea, a |-> <<>>, b |-> <<>>, ok |-> TRUE, tf |-> tf],
                    s2.w.ord, tf, strict)
      w4 == FlushAll(s3.w, s3.dea, e)
      w5 == ModeReq(w4, "prepare", s3.a, s3.b, e)
      w6 == Perform([s3 EXCEPT !.w = Settle(w5)], strict, e)
      w7 == Evaluate(w6, s3.act, s3.dea)
  IN IF ~w.init \/ ~ListOk(w, e.dea, strict) \/ ~ListOk(w, e.act, strict) THEN stop(w)
     ELSE IF ~s2.ok THEN stop(TidyAll(s2.w, s2.act))
     ELSE IF s2.act = <<>> /\ s2.dea = <<>> THEN none(s2.w, s2)
     ELSE IF ~s3.ok THEN stop(TidyAll(s3.w, s3.act))
     ELSE IF s3.act = <<>> /\ s3.dea = <<>> THEN none(s3.w, s3)
     ELSE IF ~Possible(s3.w, s3.act, s3.dea) THEN stop(TidyAll(s3.w, s3.act))
     ELSE IF ~w5.ok THEN stop(TidyAll(w5, s3.act))
     ELSE IF e.stall THEN stop(TidyAll(w5, s3.act))
     ELSE [w |-> TidyAll(w7, s3.act), act |-> s3.act, dea |-> s3.dea]
Switch(w, e) == SwitchPlan(w, e).w

RECURSIVE UnloadAll(_, _, _)
UnloadAll(w, list, o) ==
  IF list = <<>> THEN Good(w)
  ELSE LET w1 == Unload(w, Head(list), o) IN IF w1.ok THEN UnloadAll(w1, Tail(list), o) ELSE w1
Reload(w, force, o) ==
  LET act == ListOf(w, {n \in Loaded(w) : Active(w, n)})
      w1 == Switch(w, [act |-> <<>>, dea |-> act, strict |-> 1, stall |-> FALSE, out |-> o.out])
  IN IF act # <<>> /\ ~force THEN Fail(w)
     ELSE IF w.ord = <<>> THEN Good(w)
     ELSE IF ~w1.ok THEN w1
     ELSE UnloadAll(w1, w1.ord, o)

(* ----------------------------- control loop ---------------------------- *)
FromRM(w, r) ==
  LET k == r.calls IN
  [w EXCEPT !.rm = r.w, !.log = @ \o [j \in DOMAIN k |-> k[j] @@ [ph |-> w.ph]]]
UsersOf(w, hws, onlycmd) ==
  LET h(n) == {x \in hws : x \in DOMAIN w.hwc /\ n \in w.hwc[x]}
  IN Behind(w, {n \in Loaded(w) : Active(w, n) /\ \E x \in h(n) :
                   ~onlycmd \/ Range(CmdNames(w, n)) \cap Cmds(w.rm, x) # {}})
ReadPhase(w, o, logged) ==
  LET r == Cycle(w.rm, o, logged, TRUE)
      w1 == FromRM([w EXCEPT !.ph = "r"], r)
  IN IF r.res.r = "OK" THEN w1 ELSE StopAll(w1, UsersOf(w1, r.res.n, FALSE), {}, o)
WritePhase(w, o, logged) ==
  LET r == Cycle(w.rm, o, logged, FALSE)
      w1 == FromRM([w EXCEPT !.ph = "w"], r)
  IN IF r.res.r = "OK" THEN w1 ELSE StopAll(w1, UsersOf(w1, r.res.n, r.res.r = "DEACTIVATE"), {}, o)

\* acc: [w, dl (to be stopped), res]
UpdOne(acc, n, o, seen) ==
  LET w == acc.w
      p == UPeriod(w, n, o.p)
      as == w.c[n].as
      out == OutOf(o, n, "update")
      w1 == [w EXCEPT !.c[n].last = w.rm.ts]
      wS == Note(w1, [c |-> n, cb |-> "update", st |-> "active", ph |-> w.ph, p |-> p])
      wA == IF w.c[n].exc \/ w.c[n].pend THEN w1 ELSE [w1 EXCEPT !.c[n].pend = TRUE, !.c[n].per = p]
      bad == IF as THEN w.c[n].exc \/ w.c[n].ret # "OK" ELSE out # "OK"
  IN IF ~Active(w, n) \/ ~UDue(w, n, n \in seen) THEN acc
     ELSE [w |-> IF as THEN wA ELSE wS, dl |-> IF bad THEN AddItems(acc.dl, w.c[n].grp) ELSE acc.dl,
           res |-> IF bad THEN "ERROR" ELSE acc.res]
RECURSIVE UpdAll(_, _, _, _)
UpdAll(acc, todo, o, seen) ==
  IF todo = <<>> THEN acc ELSE UpdAll(UpdOne(acc, Head(todo), o, seen), Tail(todo), o, seen)
\* what follows the failure of some updates: dl are the chains of the failed controllers
FallbacksOf(w, dl) ==
  AddItems(<<>>, Flat([k \in DOMAIN dl |-> IF dl[k] \in Loaded(w) THEN w.d[dl[k]].fb ELSE <<>>]))
AfterFailure(w, dl, o) ==
  LET fb == FallbacksOf(w, dl)
      need == UNION {Range(CmdNames(w, n)) : n \in Range(fb) \cap Loaded(w)}
      busy == {n \in Loaded(w) : Active(w, n) /\ Range(CmdNames(w, n)) \cap need # {}}
      S == Behind(w, Range(dl) \cup busy)
      w1 == StopAll(w, S, Range(fb), o)
  IN IF fb = <<>> THEN w1 ELSE Activate(w1, fb, TRUE, <<>>, o)
UpdatePhase(w, o, seen) ==
  LET r == UpdAll([w |-> [w EXCEPT !.ph = "u"], dl |-> <<>>, res |-> "OK"], w.ord, o, seen)
      w1 == IF r.dl = <<>> THEN r.w ELSE AfterFailure(r.w, r.dl, o)
  IN [w |-> w1, res |-> r.res]
FullCycle(w, o, logged, seen) ==
  LET w1 == ReadPhase(w, o, logged)
      u == UpdatePhase(w1, o, seen)
      w2 == WritePhase(u.w, o, logged)
  IN [w2 EXCEPT !.ok = u.res = "OK"]

\* a cycle without effect but for the time of the last update
Tick(w, seen) ==
  [w EXCEPT !.c = [n \in DOMAIN @ |->
     IF @[n].st = "active" /\ UDue(w, n, n \in seen) THEN [@[n] EXCEPT !.last = w.rm.ts, !.pend = FALSE]
     ELSE [@[n] EXCEPT !.pend = FALSE]]]

(* -------------------------------- start -------------------------------- *)
\* acc: [w, ok]
SetHw(acc, c, target, o) ==
  LET r == SetState(acc.w.rm, c, target, o) IN [w |-> FromRM(acc.w, r), ok |-> r.res]
RECURSIVE Initial(_, _, _, _)
Initial(acc, list, target, o) ==
  IF list = <<>> THEN acc
  ELSE IF Head(list) \notin acc.left THEN Initial(acc, Tail(list), target, o)
  ELSE LET r == SetHw(acc, Head(list), target, o) IN
       Initial([w |-> r.w, bad |-> acc.bad \/ ~r.ok, left |-> acc.left \ {Head(list)}], Tail(list), target, o)
\* members one after the other until the first failure: [w, done, ok]
RECURSIVE Members(_, _, _, _)
Members(acc, list, target, o) ==
  IF list = <<>> THEN acc
  ELSE LET r == SetHw(acc, Head(list), target, o) IN
       IF r.ok THEN Members([acc EXCEPT !.w = r.w, !.done = Append(@, Head(list))], Tail(list), target, o)
       ELSE [acc EXCEPT !.w = r.w, !.ok = FALSE]
RECURSIVE BackAll(_, _, _)
BackAll(w, list, o) ==
  IF list = <<>> THEN w ELSE BackAll(SetHw([w |-> w], Head(list), "inactive", o).w, Tail(list), o)
Group(acc, list, o) ==
  LET c == Members([w |-> acc.w, done |-> <<>>, ok |-> TRUE], list, "inactive", o)
      a == Members([w |-> c.w, done |-> <<>>, ok |-> TRUE], c.done, "active", o)
  IN IF ~c.ok THEN [acc EXCEPT !.w = c.w, !.bad = TRUE]
     ELSE IF a.ok THEN [acc EXCEPT !.w = a.w]
     ELSE [acc EXCEPT !.w = BackAll(a.w, a.done, o), !.bad = TRUE]
RECURSIVE Groups(_, _, _, _, _)
Groups(acc, gs, S, order, o) ==
  IF gs = {} THEN acc
  ELSE LET g == CHOOSE x \in gs : TRUE IN
       Groups(Group(acc, SelectSeq(order, LAMBDA c : c \in S /\ Grp(acc.w.rm, c) = g), o), gs \ {g}, S, order, o)
RECURSIVE Singles(_, _, _)
Singles(acc, list, o) ==
  IF list = <<>> THEN acc
  ELSE LET r == SetHw(acc, Head(list), "active", o) IN
       Singles([acc EXCEPT !.w = r.w, !.bad = @ \/ ~r.ok], Tail(list), o)
\* order: an order of the components, decides only who comes first within a group
Start(w, o, order) ==
  LET l == Load(w.rm, o)
      inits == [j \in DOMAIN o.comps |-> o.comps[j]]
      w1 == [w EXCEPT !.rm = l.w, !.init = TRUE, !.hwc = [h \in Names(l.w) |-> {}], !.ph = "s"]
      a1 == Initial([w |-> w1, bad |-> FALSE, left |-> Names(l.w)], w.par.unconf, "unconfigured", o)
      a2 == Initial(a1, w.par.inact, "inactive", o)
      rest == a2.left
      gs == {Grp(l.w, c) : c \in rest} \ {""}
      a3 == Groups([w |-> a2.w, bad |-> a2.bad], gs, rest, order, o)
      a4 == Singles(a3, SelectSeq(order, LAMBDA c : c \in rest /\ Grp(l.w, c) = ""), o)
  IN IF w.init THEN [w |-> w, threw |-> FALSE]
     ELSE IF ~l.res THEN [w |-> [w EXCEPT !.rm = l.w], threw |-> FALSE]
     ELSE [w |-> a4.w, threw |-> a4.bad /\ w.par.shut]
=============================================================================

--------------------------------- MODULE RM ---------------------------------
(***************************************************************************)
(* The resource manager and its hardware components as a state machine.    *)
(*                                                                         *)
(* A world w is a record                                                   *)
(*   cfg   : [cmrate, allow, retn, order, c]  (c: component -> description)*)
(*   comps : component -> lifecycle state                                  *)
(*   acmd, ast : sets of command / state interfaces on offer               *)
(*   held  : command interfaces whose loan is alive                        *)
(*   grp   : hardware group -> "OK" | "E" | "D"                            *)
(*   lr,lw : component -> time of last read / write (us); -1: never since   *)
(*           activation; -2: left open by a tie that could not be observed *)
(*   ts    : current time (us)                                             *)
(* Every public operation is a function Apply(w, o, logged) of the world,  *)
(* the operation o with the outcomes of the drivers' callbacks (o.out) and *)
(* - only to resolve exact ties in the rate rule - the calls that were     *)
(* observed.  It yields [w, res, calls].                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x

Serving == {"inactive", "active"}          \* states in which interfaces are on offer
Names(w) == DOMAIN w.comps
Cmds(w, c) == Range(w.cfg.c[c].cmd)
Sts(w, c) == Range(w.cfg.c[c].st)
IsSensor(w, c) == w.cfg.c[c].t = "sensor"
Grp(w, c) == w.cfg.c[c].g
OutOf(o, c, cb) == LET k == c \o "." \o cb IN IF k \in DOMAIN o.out THEN o.out[k] ELSE "OK"
Call(c, cb, st) == [c |-> c, cb |-> cb, st |-> st]

EmptyWorld(cfg) ==
  [cfg |-> cfg, comps |-> <<>>, acmd |-> {}, ast |-> {}, held |-> {}, grp |-> <<>>,
   lr |-> <<>>, lw |-> <<>>, ts |-> 1000000]

Offer(w, c) == [w EXCEPT !.acmd = @ \cup Cmds(w, c), !.ast = @ \cup Sts(w, c)]
Withdraw(w, c) == [w EXCEPT !.acmd = @ \ Cmds(w, c), !.ast = @ \ Sts(w, c)]
GroupOk(w, c) == IF Grp(w, c) = "" THEN w ELSE [w EXCEPT !.grp[Grp(w, c)] = "OK"]

(* ------------------------------ lifecycle ------------------------------ *)
\* Error handling of a component: only in states from which something can still go wrong.
HandleError(w, c, o) ==
  IF w.comps[c] \notin Serving THEN [w |-> w, calls |-> <<>>]
  ELSE [w |-> [w EXCEPT !.comps[c] = IF OutOf(o, c, "error") = "OK" THEN "unconfigured" ELSE "finalized"],
        calls |-> <<Call(c, "error", w.comps[c])>>]

From(cb) ==
  CASE cb = "configure" -> {"unconfigured"} [] cb = "cleanup" -> {"inactive"}
    [] cb = "activate" -> {"inactive"}      [] cb = "deactivate" -> {"active"}
    [] cb = "shutdown" -> {"unconfigured", "inactive", "active"}
Goal(cb) ==
  CASE cb = "configure" -> "inactive"   [] cb = "cleanup" -> "unconfigured"
    [] cb = "activate" -> "active"      [] cb = "deactivate" -> "inactive"
    [] cb = "shutdown" -> "finalized"
\* a reported FAILURE keeps the state for these, and means error handling for the others
Refusable(cb) == cb \in {"configure", "activate", "deactivate"}

\* one transition; the result ok says that the goal of the transition was reached
Trans(w, c, cb, o) ==
  LET st == w.comps[c]
      out == OutOf(o, c, cb)
      w0 == IF cb = "activate" THEN [w EXCEPT !.lr[c] = -1, !.lw[c] = -1] ELSE w
      called == st \in From(cb)
      me == <<Call(c, cb, st)>>
      r1 == IF ~called THEN [w |-> w0, calls |-> <<>>, thrown |-> FALSE]
            ELSE IF out = "OK" THEN [w |-> [w0 EXCEPT !.comps[c] = Goal(cb)], calls |-> me, thrown |-> FALSE]
            ELSE IF out \in {"X", "Y"} THEN [w |-> w0, calls |-> me, thrown |-> TRUE]
            ELSE IF out = "F" /\ Refusable(cb) THEN [w |-> w0, calls |-> me, thrown |-> FALSE]
            ELSE LET e == HandleError(w0, c, o) IN [w |-> e.w, calls |-> me \o e.calls, thrown |-> FALSE]
      ok == ~r1.thrown /\ r1.w.comps[c] = Goal(cb)
      w2 == IF r1.w.comps[c] \in Serving THEN (IF cb = "configure" /\ ok THEN Offer(r1.w, c) ELSE r1.w)
            ELSE Withdraw(r1.w, c)
      w3 == IF cb \in {"configure", "cleanup"} \/ (cb = "shutdown" /\ ok) THEN GroupOk(w2, c) ELSE w2
  IN [w |-> w3, ok |-> ok, calls |-> r1.calls]

PathTo(st, target) ==
  CASE target = "unconfigured" ->
         (CASE st = "inactive" -> <<"cleanup">> [] st = "active" -> <<"deactivate", "cleanup">> [] OTHER -> <<>>)
    [] target = "inactive" ->
         (CASE st = "unconfigured" -> <<"configure">> [] st = "active" -> <<"deactivate">> [] OTHER -> <<>>)
    [] target = "active" ->
         (CASE st = "unconfigured" -> <<"configure", "activate">> [] st = "inactive" -> <<"activate">> [] OTHER -> <<>>)
    [] target = "finalized" ->
         (CASE st = "active" -> <<"deactivate", "shutdown">> [] st \in {"unconfigured", "inactive"} -> <<"shutdown">>
            [] OTHER -> <<>>)
    [] OTHER -> <<>>

RECURSIVE RunPath(_, _, _, _, _)
RunPath(w, c, path, o, calls) ==
  IF path = <<>> THEN [w |-> w, ok |-> TRUE, calls |-> calls]
  ELSE LET r == Trans(w, c, Head(path), o) IN
       IF r.ok THEN RunPath(r.w, c, Tail(path), o, calls \o r.calls)
       ELSE [w |-> r.w, ok |-> FALSE, calls |-> calls \o r.calls]

SetState(w, c, target, o) ==
  IF c \notin Names(w) \/ target \notin {"unconfigured", "inactive", "active", "finalized"}
  THEN [w |-> w, res |-> FALSE, calls |-> <<>>]
  ELSE LET st == w.comps[c]
           r == RunPath(w, c, PathTo(st, target), o, <<>>)
       IN IF st = "finalized" /\ target # "finalized" THEN [w |-> w, res |-> FALSE, calls |-> <<>>]
          ELSE [w |-> r.w, res |-> r.ok, calls |-> r.calls]

(* -------------------------- read and write cycle ----------------------- *)
\* time since the last cycle of this component, and whether it is due in this one
Elapsed(w, c, last) == IF last = -1 THEN 1000000 \div w.cfg.c[c].r ELSE w.ts - last
Every(w, c) == w.cfg.c[c].r = w.cfg.cmrate
ErrNow(w, c, last) == Elapsed(w, c, last) * w.cfg.c[c].r - 1000000
ErrSkipped(w, c, last) == (Elapsed(w, c, last) + 1000000 \div w.cfg.cmrate) * w.cfg.c[c].r - 1000000
\* exactly as far from the wished rate either way: both are allowed
Tie(w, c, last) ==
  ~Every(w, c) /\ (last = -2 \/ Abs(ErrNow(w, c, last)) = Abs(ErrSkipped(w, c, last)))
Due(w, c, last, seen) ==
  \/ Every(w, c)
  \/ IF Tie(w, c, last) THEN seen ELSE Abs(ErrNow(w, c, last)) < Abs(ErrSkipped(w, c, last))
\* the new time of the last cycle; obs: whether a driver call shows if the cycle ran
NewLast(w, c, last, due, obs) ==
  IF ~obs /\ Tie(w, c, last) THEN -2 ELSE IF due THEN w.ts ELSE last
Called(logged, c, cb) == \E i \in DOMAIN logged : logged[i].c = c /\ logged[i].cb = cb
PeriodOf(w, c, last, p) == IF Every(w, c) THEN p ELSE IF last = -2 THEN -1 ELSE Elapsed(w, c, last)

GroupUpdate(w, c, ret) ==
  IF Grp(w, c) = "" THEN [w |-> w, ret |-> ret]
  ELSE LET w1 == IF ret # "OK" THEN [w EXCEPT !.grp[Grp(w, c)] = ret] ELSE w
       IN [w |-> w1, ret |-> w1.grp[Grp(w, c)]]

\* acc: [w, calls, names, res]
ReadOne(acc, c, o, logged) ==
  LET w == acc.w
      last == w.lr[c]
      due == Due(w, c, last, Called(logged, c, "read"))
      st == w.comps[c]
      runs == due /\ st \in Serving
      out == IF runs THEN OutOf(o, c, "read") ELSE "OK"
      threw == out \in {"X", "Y"}
      ret == IF threw THEN "E" ELSE out
      w1 == IF threw THEN w ELSE [w EXCEPT !.lr[c] = NewLast(w, c, last, due, st \in Serving)]
      calls1 == IF runs THEN <<[c |-> c, cb |-> "read", st |-> st, p |-> PeriodOf(w, c, last, o.p)]>> ELSE <<>>
      g == GroupUpdate(w1, c, ret)
      e == HandleError(g.w, c, o)
  IN IF g.ret = "OK" THEN [acc EXCEPT !.w = g.w, !.calls = @ \o calls1]
     ELSE [w |-> Withdraw(e.w, c), calls |-> acc.calls \o calls1 \o e.calls,
           names |-> acc.names \cup {c}, res |-> "ERROR"]

WriteOne(acc, c, o, logged) ==
  IF IsSensor(acc.w, c) THEN acc
  ELSE
  LET w == acc.w
      last == w.lw[c]
      due == Due(w, c, last, Called(logged, c, "write"))
      st == w.comps[c]
      runs == due /\ st = "active"
      out == IF runs THEN OutOf(o, c, "write") ELSE "OK"
      threw == out \in {"X", "Y"}
      ret == IF threw THEN "E" ELSE out
      w1 == IF threw \/ st = "inactive" THEN w
            ELSE [w EXCEPT !.lw[c] = NewLast(w, c, last, due, st = "active")]
      calls1 == IF runs THEN <<[c |-> c, cb |-> "write", st |-> st, p |-> PeriodOf(w, c, last, o.p)]>> ELSE <<>>
      g == GroupUpdate(w1, c, ret)
      e == HandleError(g.w, c, o)
      d == IF st = "active" THEN SetState(g.w, c, "inactive", o)
           ELSE [w |-> g.w, res |-> TRUE, calls |-> <<>>]
  IN CASE g.ret = "OK" -> [acc EXCEPT !.w = g.w, !.calls = @ \o calls1]
       [] g.ret = "E" -> [w |-> Withdraw(e.w, c), calls |-> acc.calls \o calls1 \o e.calls,
                          names |-> acc.names \cup {c}, res |-> "ERROR"]
       [] g.ret = "D" -> [w |-> d.w, calls |-> acc.calls \o calls1 \o d.calls,
                          names |-> IF w.cfg.retn THEN acc.names \cup {c} ELSE acc.names,
                          res |-> IF acc.res = "ERROR" THEN "ERROR" ELSE "DEACTIVATE"]

RECURSIVE FoldComps(_, _, _, _, _)
FoldComps(acc, todo, o, logged, rd) ==
  IF todo = <<>> THEN acc
  ELSE FoldComps(IF rd THEN ReadOne(acc, Head(todo), o, logged) ELSE WriteOne(acc, Head(todo), o, logged),
                 Tail(todo), o, logged, rd)
Cycle(w, o, logged, rd) ==
  LET a == FoldComps([w |-> w, calls |-> <<>>, names |-> {}, res |-> "OK"],
                     SelectSeq(w.cfg.order, LAMBDA c : c \in Names(w)), o, logged, rd)
  IN [w |-> a.w, res |-> [r |-> a.res, n |-> a.names], calls |-> a.calls]

(* --------------------------- command mode switch ----------------------- *)
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)
Concerned(w, a, b) ==
  {c \in Names(w) : ~IsSensor(w, c) /\ (Range(a) \cup Range(b)) \cap Cmds(w, c) # {}}
StartsOnInactive(w, a, S) ==
  ~w.cfg.allow /\ \E c \in S : w.comps[c] = "inactive" /\ Range(a) \cap Cmds(w, c) # {}
AllCmds(w) == UNION {Cmds(w, c) : c \in Names(w)}
\* must: components that have to be asked;  may: those that are allowed to be asked
Mode(w, a, b, o, cb) ==
  IF a = <<>> /\ b = <<>> THEN [res |-> TRUE, must |-> {}, may |-> {}]
  ELSE IF cb = "prepare" /\ ~(Range(a) \cup Range(b) \subseteq w.acmd)
  THEN [res |-> FALSE, must |-> {}, may |-> {}]
  ELSE LET S == Concerned(w, a, b)
           askable == {c \in S : w.comps[c] \in Serving /\
                        ~(~w.cfg.allow /\ w.comps[c] = "inactive" /\ Range(a) \cap Cmds(w, c) # {})}
           res == /\ \A c \in S : w.comps[c] \in Serving
                  /\ ~StartsOnInactive(w, a, S)
                  /\ \A c \in askable : OutOf(o, c, cb) = "OK"
       IN [res |-> res, must |-> IF StartsOnInactive(w, a, S) THEN {} ELSE askable, may |-> askable]

(* --------------------------------- claims ------------------------------ *)
Claim(w, i) == IF i \in w.acmd /\ i \notin w.held THEN [w |-> [w EXCEPT !.held = @ \cup {i}], res |-> TRUE]
               ELSE [w |-> w, res |-> FALSE]
Release(w, i) == [w |-> [w EXCEPT !.held = @ \ {i}], res |-> i \in w.held]
Claimed(w) == w.held \cap w.acmd

(* ---------------------------------- load ------------------------------- *)
\* o.comps : sequence of component descriptions; o.bad: the description itself cannot be parsed
LoadOrder(comps) ==
  LET f(t) == SelectSeq(comps, LAMBDA d : d.t = t)
      nm(s) == [i \in DOMAIN s |-> s[i].n]
  IN nm(f("actuator")) \o nm(f("sensor")) \o nm(f("system"))
Rate(r, cm) == IF r = 0 \/ r > cm THEN cm ELSE r
LoadGood(w, o) ==
  LET cs == o.comps IN
  /\ o.mut = ""
  /\ \A i, j \in DOMAIN cs : i # j => cs[i].n # cs[j].n
  /\ \A i \in DOMAIN cs : cs[i].n \notin Names(w)
  /\ \A i \in DOMAIN cs : OutOf(o, cs[i].n, "init") = "OK"
  /\ \A i \in DOMAIN cs : cs[i].bad = ""
Load(w, o) ==
  IF ~LoadGood(w, o)
  THEN [w |-> [EmptyWorld(w.cfg) EXCEPT !.ts = w.ts], res |-> FALSE]
  ELSE LET cs == o.comps
           idx(n) == CHOOSE i \in DOMAIN cs : cs[i].n = n
           ns == {cs[i].n : i \in DOMAIN cs}
           cc == [n \in ns |-> [t |-> cs[idx(n)].t, g |-> cs[idx(n)].g, as |-> cs[idx(n)].as,
                                r |-> Rate(cs[idx(n)].r, w.cfg.cmrate), cmd |-> cs[idx(n)].cmd, st |-> cs[idx(n)].st]]
           cfg == [w.cfg EXCEPT !.c = cc, !.order = LoadOrder(cs)]
       IN [w |-> [EmptyWorld(cfg) EXCEPT !.ts = w.ts, !.comps = [n \in ns |-> "unconfigured"],
                    !.lr = [n \in ns |-> -1], !.lw = [n \in ns |-> -1],
                    !.grp = [g \in {cc[n].g : n \in ns} |-> "OK"]],
           res |-> TRUE]

RECURSIVE ShutSeq(_, _, _)
ShutSeq(w, todo, o) ==
  IF todo = {} THEN [w |-> w, ok |-> TRUE, calls |-> <<>>]
  ELSE LET c == CHOOSE x \in todo : TRUE
           r == SetState(w, c, "finalized", o)
           rest == ShutSeq(r.w, todo \ {c}, o)
       IN [w |-> rest.w, ok |-> r.res /\ rest.ok, calls |-> r.calls \o rest.calls]
=============================================================================

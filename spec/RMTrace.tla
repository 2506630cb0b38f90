------------------------------ MODULE RMTrace ------------------------------
(* Validates recorded executions of the real resource manager against RM.   *)
(* Every recorded operation is one step; the expected outcome is computed   *)
(* from the previous recorded state by the operators of RM and compared     *)
(* field by field.  bad collects the properties contradicted by the step.   *)
EXTENDS RM, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "RESET"}

VARIABLES l, w, bad, dead
vars == <<l, w, bad, dead>>

Set(x) == Range(x)
Fn(r) == [n \in DOMAIN r |-> r[n]]
If(c, s) == IF c THEN s ELSE {}

Init == \E k \in Starts :
  /\ l = k /\ bad = {} /\ dead = FALSE
  /\ w = EmptyWorld([cmrate |-> Log[k].cmrate, allow |-> Log[k].allow, retn |-> Log[k].retn,
                     order |-> <<>>, c |-> <<>>])

Cb(calls, c) == LET s == SelectSeq(calls, LAMBDA k : k.c = c) IN [i \in DOMAIN s |-> <<s[i].cb, s[i].st>>]
SameCalls(w1, exp, e) == /\ \A c \in Names(w1) : Cb(exp, c) = Cb(e.calls, c)
                         /\ \A i \in DOMAIN e.calls : e.calls[i].c \in Names(w1)
Kind(calls, cb) == SelectSeq(calls, LAMBDA k : k.cb = cb)
NotKind(calls, cb) == SelectSeq(calls, LAMBDA k : k.cb # cb)
CalledSet(calls, cb) == {calls[i].c : i \in {j \in DOMAIN calls : calls[j].cb = cb}}
PeriodsOk(exp, e, cb) ==
  \A i \in DOMAIN exp, j \in DOMAIN e.calls :
     (exp[i].cb = cb /\ e.calls[j].cb = cb /\ exp[i].c = e.calls[j].c) => exp[i].p = -1 \/ Abs(exp[i].p - e.calls[j].p) <= 2

\* the recorded state as a world; unrecorded parts are those of x
Resync(x, e) == [x EXCEPT !.comps = Fn(e.s.comps), !.acmd = Set(e.s.acmd), !.ast = Set(e.s.ast), !.held = Set(e.s.held)]
StateBad(x, e, owner) ==
  If(Fn(e.s.comps) # x.comps, owner)
  \cup If(Set(e.s.acmd) # x.acmd \/ Set(e.s.ast) # x.ast \/ e.s.incons, {"H02"})
  \cup If(Set(e.s.cmd) # AllCmds(x), {"H02", "H07"})
  \cup If(Set(e.s.claimed) # Claimed(x) \/ Set(e.s.held) # x.held, {"H03"})
FinalLeft(x, e) == \E c \in Names(x) : x.comps[c] = "finalized" /\ e.s.comps[c] # "finalized"

InfoOk(x, e) ==
  /\ DOMAIN Fn(e.s.info) = Names(x)
  /\ \A n \in Names(x) :
       LET i == e.s.info[n] d == x.cfg.c[n] IN
       /\ i.t = d.t /\ i.g = d.g /\ i.r = d.r /\ i.as = d.as /\ ~i.dup
       /\ Set(i.cmd) = Range(d.cmd) /\ Set(i.st) = Range(d.st)

\* <<next world, contradicted properties, stop>>
Step(e) ==
  LET w0 == [w EXCEPT !.ts = e.now]
      op == e.op IN
  CASE op = "SET" ->
         LET r == SetState(w0, e.c, e.to, e) IN
         <<Resync(r.w, e),
           If(~SameCalls(w0, r.calls, e) \/ e.res # r.res, {"H01"}) \cup StateBad(r.w, e, {"H01"}), FALSE>>
    [] op = "SHUT" ->
         LET r == ShutSeq(w0, Names(w0), e) IN
         <<Resync(r.w, e),
           If(~SameCalls(w0, r.calls, e) \/ e.res # r.ok, {"H01"}) \cup StateBad(r.w, e, {"H01"}), FALSE>>
    [] op \in {"READ", "WRITE"} ->
         LET cb == IF op = "READ" THEN "read" ELSE "write"
             r == Cycle(w0, e, e.calls, op = "READ") IN
         <<Resync(r.w, e),
           If(CalledSet(e.calls, cb) # CalledSet(r.calls, cb) \/ Len(Kind(e.calls, cb)) # Len(Kind(r.calls, cb))
              \/ ~PeriodsOk(r.calls, e, cb), {"H05"})
           \cup If(\E i \in DOMAIN e.calls : e.calls[i].cb = cb /\
                      e.calls[i].st \notin (IF op = "READ" THEN Serving ELSE {"active"}), {"H01"})
           \cup If(FinalLeft(w0, e), {"H01"})
           \cup If(~SameCalls(w0, NotKind(r.calls, cb), [e EXCEPT !.calls = NotKind(e.calls, cb)])
                   \/ e.res.r # r.res.r \/ Set(e.res.n) # r.res.n \/ Len(e.res.n) # Cardinality(r.res.n), {"H04"})
           \cup StateBad(r.w, e, {"H04"}) \cup If(Set(e.s.acmd) # r.w.acmd \/ Set(e.s.ast) # r.w.ast, {"H04"}), FALSE>>
    [] op = "CLAIM" ->
         LET r == Claim(w0, e.i) IN
         <<Resync(r.w, e), If(e.res # r.res, {"H03"}) \cup If(e.res # FALSE /\ e.i \notin w0.acmd, {"H02"})
             \cup If(e.calls # <<>>, {"H03"}) \cup StateBad(r.w, e, {"H03"}), FALSE>>
    [] op = "RELEASE" ->
         LET r == Release(w0, e.i) IN
         <<Resync(r.w, e), If(e.res # r.res, {"H03"}) \cup StateBad(r.w, e, {"H03"}), FALSE>>
    [] op = "SCLAIM" ->
         <<Resync(w0, e), If(e.res # (e.i \in w0.ast), IF e.i \in w0.ast THEN {"H03", "H02"} ELSE {"H02"})
             \cup StateBad(w0, e, {"H03"}), FALSE>>
    [] op \in {"PREP", "PERF"} ->
         LET cb == IF op = "PREP" THEN "prepare" ELSE "perform"
             r == Mode(w0, e.a, e.b, e, cb)
             asked == CalledSet(e.calls, cb) IN
         <<Resync(w0, e),
           If(\/ e.res # r.res \/ ~(r.must \subseteq asked) \/ ~(asked \subseteq r.may)
              \/ \E i \in DOMAIN e.calls : e.calls[i].cb # cb
                   \/ Set(e.calls[i].a) # Range(e.a) \cap Cmds(w0, e.calls[i].c)
                   \/ Set(e.calls[i].b) # Range(e.b) \cap Cmds(w0, e.calls[i].c)
              \/ Len(e.calls) # Cardinality(asked), {"H06"})
           \cup If(op = "PREP" /\ e.res = TRUE /\ ~(Range(e.a) \cup Range(e.b) \subseteq w0.acmd), {"H02"})
           \cup StateBad(w0, e, {"H06"}), FALSE>>
    [] op = "LOAD" ->
         LET r == Load(w0, e)
             b == If(\/ (e.res = TRUE) # r.res
                     \/ Fn(e.s.comps) # r.w.comps \/ ~InfoOk(r.w, e)
                     \/ Set(e.s.cmd) # AllCmds(r.w) \/ Set(e.s.st) # UNION {Sts(r.w, c) : c \in Names(r.w)}
                     \/ Set(e.s.acmd) # {} \/ Set(e.s.ast) # {} \/ Set(e.s.claimed) # {} \/ e.s.incons
                     \/ e.s.init # r.res, {"H07"})
                  \cup If(r.res /\ e.res = TRUE /\ \E n \in Names(r.w) : n \in DOMAIN Fn(e.s.info)
                            /\ e.s.info[n].r # r.w.cfg.c[n].r, {"H05"}) IN
         <<r.w, b, b # {}>>
    [] OTHER -> <<w0, {"UNKNOWN-OP"}, TRUE>>

Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E s \in {Step(Log[l + 1])} :
       /\ w' = s[1] /\ bad' = s[2] /\ dead' = s[3]
       /\ s[2] # {} => PrintT(<<"BAD", ToString(s[2]), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, dead>>
=============================================================================

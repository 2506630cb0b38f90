------------------------------ MODULE HASTrace ------------------------------
(* Validates recorded executions of the real resource manager with          *)
(* asynchronous components against HAS.                                     *)
EXTENDS HAS, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "RESET"}
VARIABLES l, w, bad, dead
vars == <<l, w, bad, dead>>
Fn(r) == [n \in DOMAIN r |-> r[n]]

Init == \E k \in Starts :
  /\ l = k /\ bad = {} /\ dead = FALSE
  /\ w = EmptyWorld([cmrate |-> Log[k].cmrate, allow |-> Log[k].allow, retn |-> Log[k].retn, order |-> <<>>, c |-> <<>>])

\* the calls of one component, with the period of its cycles
Of(calls, c) ==
  LET s == SelectSeq(calls, LAMBDA k : k.c = c) IN
  [i \in DOMAIN s |-> [cb |-> s[i].cb, st |-> s[i].st, p |-> IF "p" \in DOMAIN s[i] THEN s[i].p ELSE -1]]
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].cb = b[i].cb /\ a[i].st = b[i].st /\ Abs(a[i].p - b[i].p) <= 2
SameCalls(exp, calls) == /\ \A c \in Names(w) : SameSeq(Of(exp, c), Of(calls, c))
                         /\ \A i \in DOMAIN calls : calls[i].c \in Names(w)
SameState(x, e) == /\ Fn(e.s.comps) = x.comps /\ Range(e.s.acmd) = x.acmd /\ Range(e.s.ast) = x.ast /\ ~e.s.incons
SameRes(r, x) == x.r = r.r /\ Range(x.n) = r.n /\ Len(x.n) = Cardinality(r.n)

\* <<next world, agrees>>
Step(e) ==
  LET w0 == [w EXCEPT !.ts = e.now] IN
  CASE e.op = "LOAD" -> LET r == Load(w0, e) IN <<Ext(r.w), r.res = e.res /\ SameState(r.w, e)>>
    [] e.op = "SET" -> LET r == ASetState(w0, e.c, e.to, e) IN
         <<r.w, r.res = e.res /\ SameCalls(r.calls, e.calls) /\ SameState(r.w, e)>>
    [] e.op = "SHUT" -> LET r == AShutSeq(w0, Names(w0), e) IN
         <<r.w, r.ok = e.res /\ SameCalls(r.calls, e.calls) /\ SameState(r.w, e)>>
    [] e.op \in {"READ", "WRITE"} -> LET r == ACycle(w0, e, e.op = "READ") IN
         <<r.w, SameRes(r.res, e.res) /\ SameCalls(r.calls, e.calls) /\ SameState(r.w, e)>>
    [] e.op = "RUN" -> LET r == Run(w0, e) IN
         <<r.w, /\ r.ran = e.res.ran /\ SameCalls(r.calls, e.calls) /\ SameState(r.w, e)
                /\ (e.mid # "" /\ r.ran) => SameRes(r.mid, e.res.mid) /\ SameCalls(r.during, e.res.during)>>
    [] OTHER -> <<w0, FALSE>>

Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E s \in {Step(Log[l + 1])} :
       /\ w' = s[1] /\ bad' = (IF s[2] THEN {} ELSE {"H09"}) /\ dead' = ~s[2]
       /\ ~s[2] => PrintT(<<"BAD", ToString({"H09"}), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, dead>>
=============================================================================

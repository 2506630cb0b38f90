-------------------------------- MODULE HAS --------------------------------
(***************************************************************************)
(* Hardware components whose read/write cycle runs on a thread of its own. *)
(* The world of RM is extended by, per component,                          *)
(*   pend : a cycle has been triggered and has not finished (with p, the   *)
(*          period it was given; -1: none)                                 *)
(*   ri, wi : outcome of the last read / write that finished in this life  *)
(*   ex   : the last cycle ended with an exception not yet reported        *)
(* read() of the manager reports ri and triggers a cycle unless one is     *)
(* pending; write() reports wi.  The cycle itself is the operation RUN.    *)
(* Whatever changes the state of a component first lets a pending cycle    *)
(* finish, so that none runs in a state it was not meant for.              *)
(***************************************************************************)
EXTENDS RM

Ext(w) == w @@ [pend |-> [c \in Names(w) |-> -1], ri |-> [c \in Names(w) |-> "OK"],
                wi |-> [c \in Names(w) |-> "OK"], ex |-> [c \in Names(w) |-> FALSE]]

CallP(c, cb, st, p) == [c |-> c, cb |-> cb, st |-> st, p |-> p]
\* one cycle of the component's own thread: read, then write if that went well and it is active
Finish(w, c, o) ==
  IF w.pend[c] = -1 THEN [w |-> w, calls |-> <<>>]
  ELSE LET st == w.comps[c]
           r == OutOf(o, c, "read")
           wr == OutOf(o, c, "write")
           writes == r = "OK" /\ st = "active" /\ ~IsSensor(w, c)
           w1 == [w EXCEPT !.pend[c] = -1]
           w2 == IF r \in {"X", "Y"} THEN [w1 EXCEPT !.ex[c] = TRUE] ELSE [w1 EXCEPT !.ri[c] = r]
           w3 == IF ~writes THEN w2
                 ELSE IF wr \in {"X", "Y"} THEN [w2 EXCEPT !.ex[c] = TRUE] ELSE [w2 EXCEPT !.wi[c] = wr]
       IN [w |-> w3, calls |-> <<CallP(c, "read", st, w.pend[c])>> \o (IF writes THEN <<CallP(c, "write", st, w.pend[c])>> ELSE <<>>)]
Forget(w, c) == [w EXCEPT !.ri[c] = "OK", !.wi[c] = "OK", !.ex[c] = FALSE]

AError(w, c, o) ==
  IF w.comps[c] \notin Serving THEN [w |-> w, calls |-> <<>>]
  ELSE LET f == Finish(w, c, o) e == HandleError(f.w, c, o) IN [w |-> e.w, calls |-> f.calls \o e.calls]
ATrans(w, c, cb, o) ==
  IF w.comps[c] \notin From(cb) THEN Trans(w, c, cb, o)
  ELSE LET f == Finish(w, c, o)
           t == Trans(IF cb \in {"configure", "activate"} THEN Forget(f.w, c) ELSE f.w, c, cb, o)
       IN [t EXCEPT !.calls = f.calls \o @]
RECURSIVE ARunPath(_, _, _, _, _)
ARunPath(w, c, path, o, calls) ==
  IF path = <<>> THEN [w |-> w, ok |-> TRUE, calls |-> calls]
  ELSE LET r == ATrans(w, c, Head(path), o) IN
       IF r.ok THEN ARunPath(r.w, c, Tail(path), o, calls \o r.calls)
       ELSE [w |-> r.w, ok |-> FALSE, calls |-> calls \o r.calls]
ASetState(w, c, target, o) ==
  IF c \notin Names(w) \/ target \notin {"unconfigured", "inactive", "active", "finalized"}
  THEN [w |-> w, res |-> FALSE, calls |-> <<>>]
  ELSE LET st == w.comps[c]
           r == ARunPath(w, c, PathTo(st, target), o, <<>>)
       IN IF st = "finalized" /\ target # "finalized" THEN [w |-> w, res |-> FALSE, calls |-> <<>>]
          ELSE [w |-> r.w, res |-> r.ok, calls |-> r.calls]

AReadOne(acc, c, o) ==
  LET w == acc.w
      due == Due(w, c, w.lr[c], FALSE)
      runs == due /\ w.comps[c] \in Serving
      threw == runs /\ w.ex[c]
      busy == runs /\ ~threw /\ w.pend[c] # -1
      starts == runs /\ ~threw /\ ~busy
      ret == IF threw THEN "E" ELSE IF starts THEN w.ri[c] ELSE "OK"
      w1 == IF threw THEN [w EXCEPT !.ex[c] = FALSE]
            ELSE IF starts THEN [w EXCEPT !.pend[c] = PeriodOf(w, c, w.lr[c], o.p), !.lr[c] = w.ts]
            ELSE IF due /\ ~runs THEN [w EXCEPT !.lr[c] = w.ts] ELSE w
      e1 == IF starts /\ ret = "E" THEN AError(w1, c, o) ELSE [w |-> w1, calls |-> <<>>]
      g == GroupUpdate(e1.w, c, ret)
      e == AError(g.w, c, o)
  IN IF g.ret = "OK" THEN [acc EXCEPT !.w = g.w]
     ELSE [w |-> Withdraw(e.w, c), calls |-> acc.calls \o e1.calls \o e.calls, names |-> acc.names \cup {c}, res |-> "ERROR"]
AWriteOne(acc, c, o) ==
  IF IsSensor(acc.w, c) THEN acc
  ELSE
  LET w == acc.w
      st == w.comps[c]
      due == Due(w, c, w.lw[c], FALSE)
      ret == IF due /\ st = "active" THEN w.wi[c] ELSE "OK"
      w1 == IF due /\ st # "inactive" THEN [w EXCEPT !.lw[c] = w.ts] ELSE w
      e1 == IF ret = "E" THEN AError(w1, c, o) ELSE [w |-> w1, calls |-> <<>>]
      g == GroupUpdate(e1.w, c, ret)
      e == AError(g.w, c, o)
      d == IF g.w.comps[c] = "active" THEN ASetState(g.w, c, "inactive", o) ELSE [w |-> g.w, res |-> TRUE, calls |-> <<>>]
  IN CASE g.ret = "OK" -> [acc EXCEPT !.w = g.w]
       [] g.ret = "E" -> [w |-> Withdraw(e.w, c), calls |-> acc.calls \o e1.calls \o e.calls,
                          names |-> acc.names \cup {c}, res |-> "ERROR"]
       [] g.ret = "D" -> [w |-> d.w, calls |-> acc.calls \o d.calls,
                          names |-> IF w.cfg.retn THEN acc.names \cup {c} ELSE acc.names,
                          res |-> IF acc.res = "ERROR" THEN "ERROR" ELSE "DEACTIVATE"]
RECURSIVE AFold(_, _, _, _)
AFold(acc, todo, o, rd) ==
  IF todo = <<>> THEN acc
  ELSE AFold(IF rd THEN AReadOne(acc, Head(todo), o) ELSE AWriteOne(acc, Head(todo), o), Tail(todo), o, rd)
ACycle(w, o, rd) ==
  LET a == AFold([w |-> w, calls |-> <<>>, names |-> {}, res |-> "OK"],
                 SelectSeq(w.cfg.order, LAMBDA c : c \in Names(w)), o, rd)
  IN [w |-> a.w, res |-> [r |-> a.res, n |-> a.names], calls |-> a.calls]

RECURSIVE AShutSeq(_, _, _)
AShutSeq(w, todo, o) ==
  IF todo = {} THEN [w |-> w, ok |-> TRUE, calls |-> <<>>]
  ELSE LET c == CHOOSE x \in todo : TRUE
           r == ASetState(w, c, "finalized", o)
           rest == AShutSeq(r.w, todo \ {c}, o)
       IN [w |-> rest.w, ok |-> r.res /\ rest.ok, calls |-> r.calls \o rest.calls]

\* a cycle of the manager in the middle of a run of c: to the manager c is still busy, and it sees
\* the outcomes of the run before (the new ones are written when the callback returns)
Run(w, o) ==
  IF w.pend[o.c] = -1 THEN [w |-> w, ran |-> FALSE, calls |-> <<>>, mid |-> [r |-> "", n |-> {}], during |-> <<>>]
  ELSE LET m == IF o.mid = "" THEN [w |-> w, res |-> [r |-> "", n |-> {}], calls |-> <<>>] ELSE ACycle(w, o, o.mid = "READ")
           f == Finish(m.w, o.c, o)
       IN [w |-> f.w, ran |-> TRUE, calls |-> f.calls, mid |-> m.res, during |-> m.calls]
\* such a cycle is generated only where it has nothing to fail with: its error handling would wait for the run
Quiet(w, o, rd) == LET m == ACycle(w, o, rd) IN m.res.r = "OK"
=============================================================================

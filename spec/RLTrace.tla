------------------------------ MODULE RLTrace ------------------------------
(* Validates recorded executions of the resource manager's limits.  Per     *)
(* joint: ex: all arithmetic was exact so far; unk: what its limiter        *)
(* remembers is not known (an exception ended the enforcement somewhere).   *)
EXTENDS RL, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "NEW"}
VARIABLES l, w, aux, bad, dead
vars == <<l, w, aux, bad, dead>>
Fn(x) == IF x = <<>> THEN [k \in {} |-> 0] ELSE x

Clean == [ex |-> TRUE, unk |-> FALSE]
SeenOk(ww, e) == \A n \in DOMAIN ww.J : \A q \in DOMAIN ww.J[n].cmd : e.hw[n][q] = ww.J[n].cmd[q]
Init == \E k \in Starts : \E n \in {New(Log[k])} :
  /\ l = k /\ w = n /\ aux = [j \in DOMAIN n.J |-> Clean] /\ dead = FALSE
  /\ bad = IF Log[k].res = "OK" /\ SeenOk(n, Log[k]) THEN {} ELSE {"L04"}
  /\ bad # {} => PrintT(<<"BAD", ToString(bad), k>>)

IsRough(x, o, lw) ==
  lw.kind = "soft" /\ Rough(lw.L, lw.S, IF Has(lw.pc.p) THEN lw.pc.p ELSE Known(o.act).p, IF Num(o.act.p) THEN o.act.p ELSE lw.pc.p)
\* joint n after an enforcement of des for 1/dn s, of which the hardware saw the values h
Follow(e, n, des, dn, h) ==
  LET x == w.J[n] lw == x.lim[1] o == Request(x, des, dn)
      rough == IsRough(x, o, lw)
      tol == IF aux[n].ex /\ e.ex /\ ~rough THEN 0 ELSE 16
      fits(z) ==
        LET r == Enforce(lw, o, z) IN
        ~r.threw /\ \A q \in DOMAIN x.cmd :
          IF q \in SQ /\ Num(r.out[q]) THEN h[q] # NAN /\ Abs(h[q] - r.out[q][1]) <= tol
          ELSE h[q] = IF q \in SQ /\ Has(r.out[q]) THEN NAN ELSE x.cmd[q]
      r0 == Enforce(lw, o, FALSE)
      \* the history goes by what was really let through
      pc == IF dn <= 0 THEN r0.w.pc
            ELSE [q \in Q |-> IF q \in SQ /\ Has(des[q]) /\ h[q] # NAN THEN <<h[q]>> ELSE r0.w.pc[q]] IN
  [x |-> [x EXCEPT !.lim = <<[lw EXCEPT !.pc = pc]>>, !.cmd = [q \in DOMAIN @ |-> h[q]]],
   ok |-> fits(FALSE) \/ fits(TRUE),
   lim |-> r0.lim,
   soft |-> tol > 0,
   aux |-> [aux[n] EXCEPT !.ex = @ /\ e.ex /\ ~rough]]
Adopt(n, h) == [w.J[n] EXCEPT !.cmd = [q \in DOMAIN @ |-> h[q]]]
Same(e, S) == \A n \in S : \A q \in DOMAIN w.J[n].cmd : e.hw[n][q] = w.J[n].cmd[q]
All == DOMAIN w.J
Out(x, des) == x.lim # <<>> /\ Num(des.p) /\ OutOfRange(x.lim[1].L, Known(Act(x)).p)

Step(e) ==
  CASE e.op = "CLAIM" -> [w |-> [w EXCEPT !.J[e.n].own = @ \cup {e.q}], aux |-> aux,
                          ok |-> Same(e, All) /\ e.res = IF e.q \in w.J[e.n].own THEN "THROW" ELSE "OK"]
    [] e.op = "RELEASE" -> [w |-> [w EXCEPT !.J[e.n].own = @ \ {e.q}], aux |-> aux, ok |-> Same(e, All) /\ e.res = "OK"]
    [] e.op = "READ" ->
         [w |-> [w EXCEPT !.J = [n \in All |-> [w.J[n] EXCEPT !.st = [q \in DOMAIN @ |-> IF n \in DOMAIN Fn(e.v) /\ q \in DOMAIN Fn(e.v[n]) THEN e.v[n][q] ELSE @[q]]]]],
          aux |-> aux, ok |-> Same(e, All) /\ e.res = "OK"]
    [] e.op = "SETC" ->
         LET n == e.n x == w.J[n] des == Only(e.q, e.v) h == e.hw[n]
             others == Same(e, All \ {n}) /\ \A q \in DOMAIN x.cmd \ {e.q} : h[q] = x.cmd[q] IN
         IF ~Limited(x, e.q) THEN [w |-> [w EXCEPT !.J[n] = Adopt(n, h)], aux |-> aux, ok |-> others /\ e.res = "OK" /\ h[e.q] = e.v]
         ELSE IF Out(x, des)
         THEN [w |-> [w EXCEPT !.J[n] = SetC(w, n, e.q, e.v, FALSE).x], aux |-> aux, ok |-> others /\ e.res = "THROW" /\ h[e.q] = x.cmd[e.q]]
         ELSE IF aux[n].unk THEN [w |-> [w EXCEPT !.J[n] = Adopt(n, h)], aux |-> aux, ok |-> others /\ e.res = "OK"]
         ELSE LET f == Follow(e, n, des, w.rate, h) IN
              [w |-> [w EXCEPT !.J[n] = f.x], aux |-> [aux EXCEPT ![n] = f.aux], ok |-> others /\ e.res = "OK" /\ f.ok]
    [] e.op = "ENF" ->
         LET throws == e.dn > 0 /\ \E n \in All : Out(w.J[n], Asked(w.J[n])) IN
         IF throws
         THEN [w |-> [w EXCEPT !.J = [n \in All |-> Adopt(n, e.hw[n])]],
               aux |-> [n \in All |-> [aux[n] EXCEPT !.unk = TRUE]], ok |-> e.res = "THROW"]
         ELSE LET known == {n \in All : w.J[n].lim # <<>> /\ ~aux[n].unk}
                  f == [n \in known |-> Follow(e, n, Asked(w.J[n]), e.dn, e.hw[n])]
                  free == {n \in All : w.J[n].lim = <<>>} IN
              [w |-> [w EXCEPT !.J = [n \in All |-> IF n \in known THEN f[n].x ELSE Adopt(n, e.hw[n])]],
               aux |-> [n \in All |-> IF n \in known THEN f[n].aux ELSE aux[n]],
               ok |-> /\ e.res # "THROW" /\ Same(e, free)
                      /\ \A n \in known : f[n].ok
                      /\ (\A n \in known : ~f[n].soft) /\ (known \cup free = All) /\ e.res # "ANY"
                           => (e.res = "OK" <=> \E n \in known : f[n].lim)]
    [] e.op = "WRITE" -> [w |-> w, aux |-> aux, ok |-> Same(e, All)]
    [] e.op = "PERF" ->
         [w |-> [w EXCEPT !.J = [n \in All |-> IF e.res = "OK" THEN Forget(w.J[n]) ELSE w.J[n]]],
          aux |-> IF e.res = "OK" THEN [n \in All |-> Clean] ELSE aux,
          ok |-> Same(e, All) /\ (e.res = "OK" <=> e.out = <<>>)]
    [] OTHER -> [w |-> w, aux |-> aux, ok |-> FALSE]
Next ==
  /\ ~dead /\ l < Len(Log) /\ Log[l + 1].op # "NEW"
  /\ l' = l + 1
  /\ \E s \in {Step(Log[l + 1])} :
       /\ w' = s.w /\ aux' = s.aux /\ dead' = ~s.ok
       /\ bad' = IF s.ok THEN {} ELSE {"L04"}
       /\ ~s.ok => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, dead>>
=============================================================================

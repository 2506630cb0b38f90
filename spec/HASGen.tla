------------------------------- MODULE HASGen -------------------------------
(* Random walks through HAS; each walk is printed as a script.  -simulate.  *)
EXTENDS HAS, Json, Randomization

CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>

Comp(n, t, g, r, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> r, as |-> TRUE, bad |-> "", cmd |-> cmd, st |-> st]
A1(g, r) == Comp("a1", "actuator", g, r, <<"a1j/p", "a1j/v">>, <<"a1j/p">>)
A2(g, r) == Comp("a2", "actuator", g, r, <<"a2j/p">>, <<"a2j/p", "a2j/v">>)
B1(g, r) == Comp("b1", "system", g, r, <<"b1j/p", "b1k/p", "g1/io">>, <<"b1j/p", "b1k/p", "g1/in", "s9/f">>)
S1(g, r) == Comp("s1", "sensor", g, r, <<>>, <<"s1/fx", "s1/fy">>)
\* the rates are such that no cycle is exactly between two of the manager's (times are whole cycles)
Setups == {
  <<A1("", 0)>>, <<B1("", 0)>>, <<S1("", 0)>>, <<A1("", 0), B1("", 0)>>, <<B1("", 50), S1("", 0)>>,
  <<A1("G", 0), B1("G", 0)>>, <<A1("", 25), S1("", 50)>>, <<A1("G", 0), A2("", 30), S1("G", 0)>>,
  <<A1("", 0), A2("", 25), B1("", 0), S1("", 0)>> }
T == 10000
Rnd(s) == RandomElement(s)
Pick(seq) == seq[Rnd(DOMAIN seq)]
P(x) == Rnd(1..100) <= x
Life == <<"OK", "OK", "OK", "OK", "OK", "OK", "F", "E", "X", "Y">>
Rw == <<"OK", "OK", "OK", "OK", "OK", "OK", "E", "X", "Y", "D">>
ErrO == <<"OK", "OK", "OK", "F">>
Cbs == {"configure", "activate", "deactivate", "cleanup", "shutdown", "error", "read", "write"}
Non(m) == LET ks == {k \in DOMAIN m : m[k] # "OK"} IN [k \in ks |-> m[k]]
Out(cs, calm) ==
  IF P(calm) THEN <<>>
  ELSE Non(TLCEval([k \in {c \o "." \o cb : c \in cs, cb \in Cbs} |->
     IF \E c \in cs : k = c \o ".error" THEN Pick(ErrO)
     ELSE IF \E c \in cs : k \in {c \o ".read", c \o ".write"} THEN Pick(Rw) ELSE Pick(Life)]))
Pending == {c \in Names(w) : w.pend[c] # -1}
Targets == <<"active", "active", "active", "active", "inactive", "inactive", "unconfigured", "unconfigured">>
Cyc(op, out) == [op |-> op, dt |-> IF op = "READ" THEN Pick(<<T, T, T, T, 2 * T, 5 * T>>) ELSE 0, p |-> Pick(<<T, T, T + 500>>), out |-> out]
RandOp(r) ==
  CASE r <= 30 -> Cyc("READ", Out(Names(w), 60))
    [] r <= 45 -> Cyc("WRITE", Out(Names(w), 60))
    [] r <= 75 -> LET c == TLCEval(IF Pending = {} \/ P(5) THEN Rnd(Names(w)) ELSE Rnd(Pending))
                      out == TLCEval(Out({c}, 40))
                      mid == TLCEval(Pick(<<"", "", "READ", "WRITE">>))
                      o == [op |-> "RUN", c |-> c, mid |-> mid, dt |-> 0, p |-> T, out |-> out] IN
                  IF mid # "" /\ ~Quiet(w, o, mid = "READ") THEN [o EXCEPT !.mid = ""] ELSE o
    [] r <= 99 \/ P(70) ->
         LET c == TLCEval(Rnd(Names(w))) IN
         [op |-> "SET", c |-> c, dt |-> 0, out |-> Out({c}, 50),
          to |-> IF P(2) THEN "finalized"
                 ELSE IF w.comps[c] = "unconfigured" THEN Pick(<<"active", "inactive">>) ELSE Pick(Targets)]
    [] OTHER -> [op |-> "SHUT", out |-> Out(Names(w), 50)]
Apply(o) ==
  LET w1 == IF "dt" \in DOMAIN o THEN [w EXCEPT !.ts = @ + o.dt] ELSE w IN
  CASE o.op = "READ" -> ACycle(w1, o, TRUE).w
    [] o.op = "WRITE" -> ACycle(w1, o, FALSE).w
    [] o.op = "SET" -> ASetState(w1, o.c, o.to, o).w
    [] o.op = "RUN" -> Run(w1, o).w
    [] o.op = "SHUT" -> AShutSeq(w1, Names(w1), o).w
    [] OTHER -> w1
Init == \E cs \in {Rnd(Setups)} : \E rn \in {P(75)} :
  LET w0 == EmptyWorld([cmrate |-> 100, allow |-> FALSE, retn |-> rn, order |-> <<>>, c |-> <<>>])
      ld == [op |-> "LOAD", comps |-> cs, mut |-> "", out |-> <<>>] IN
  /\ hist = <<[op |-> "RESET", cmrate |-> 100, allow |-> FALSE, retn |-> rn], ld>>
  /\ w = Ext(Load(w0, ld).w)
Up == \E c \in {Rnd(Names(w))} :
  LET o == [op |-> "SET", c |-> c, to |-> "active", dt |-> 0, out |-> <<>>] IN
  /\ hist' = Append(hist, o) /\ w' = Apply(o)
Work == \E r \in {Rnd(1..100)} : \E o \in {TLCEval(RandOp(r))} :
  /\ hist' = Append(hist, o) /\ w' = Apply(o)
Next == IF Len(hist) < 4 THEN Up ELSE Work
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

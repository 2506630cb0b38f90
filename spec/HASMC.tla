-------------------------------- MODULE HASMC --------------------------------
(* Exhaustive exploration of HAS for small robots; with Cover = TRUE every   *)
(* explored transition is printed as a script.                               *)
EXTENDS HAS, Json

CONSTANTS Robot, Cover
VARIABLES w, last, hist
vars == <<w, last, hist>>

Comp(n, t, g, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> 0, as |-> TRUE, bad |-> "", cmd |-> cmd, st |-> st]
Comps ==
  CASE Robot = 1 -> <<Comp("b1", "system", "", <<"b1j/p">>, <<"b1j/p">>)>>
    [] Robot = 2 -> <<Comp("a1", "actuator", "G", <<"a1j/p">>, <<"a1j/p">>), Comp("s1", "sensor", "G", <<>>, <<"s1/f">>)>>
    [] Robot = 3 -> <<Comp("a1", "actuator", "", <<"a1j/p">>, <<"a1j/p">>), Comp("b1", "system", "", <<"b1j/p">>, <<"b1j/p">>)>>
LoadOpR == [op |-> "LOAD", comps |-> Comps, mut |-> "", out |-> <<>>]
Reset == [op |-> "RESET", cmrate |-> 100, allow |-> FALSE, retn |-> TRUE]
Init ==
  /\ w = Ext(Load(EmptyWorld([cmrate |-> 100, allow |-> FALSE, retn |-> TRUE, order |-> <<>>, c |-> <<>>]), LoadOpR).w)
  /\ hist = <<Reset, LoadOpR>>
  /\ last = [o |-> [op |-> "NONE"], res |-> FALSE, calls |-> <<>>]

Non(m) == LET ks == {k \in DOMAIN m : m[k] # "OK"} IN [k \in ks |-> m[k]]
Maps(doms) ==
  {Non(f) : f \in {g \in [DOMAIN doms -> UNION {doms[k] : k \in DOMAIN doms}] : \A k \in DOMAIN doms : g[k] \in doms[k]}}
RunKeys(c) == IF w.pend[c] = -1 THEN {} ELSE {c \o ".read"} \cup (IF w.comps[c] = "active" THEN {c \o ".write"} ELSE {})
Dom(k, cs) ==
  IF \E c \in cs : k \in {c \o ".read", c \o ".write"} THEN {"OK", "E", "D", "X"}
  ELSE IF \E c \in cs : k = c \o ".error" THEN {"OK", "F"} ELSE {"OK", "F", "E"}
Outs(ks, cs) == Maps([k \in ks |-> Dom(k, cs)])

Rec(o, r, calls, w1) ==
  /\ w' = w1 /\ last' = [o |-> o, res |-> r, calls |-> calls]
  /\ hist' = IF Cover THEN Append(hist, o) ELSE hist
  /\ Cover => PrintT("@@" \o ToJson(Append(hist, o)))
SetOp == \E c \in Names(w) : \E to \in {"unconfigured", "inactive", "active", "finalized"} :
  \E out \in Outs({c \o "." \o cb : cb \in Range(PathTo(w.comps[c], to))} \cup {c \o ".error"} \cup RunKeys(c), {c}) :
  LET o == [op |-> "SET", c |-> c, to |-> to, dt |-> 0, out |-> out] r == ASetState(w, c, to, o) IN
  Rec(o, r.res, r.calls, r.w)
\* error handling in a cycle waits for the cycle triggered in it
Bad(c) == w.ri[c] # "OK" \/ w.wi[c] # "OK" \/ w.ex[c] \/ (Grp(w, c) # "" /\ \E d \in Names(w) : Grp(w, d) = Grp(w, c) /\ (w.ri[d] # "OK" \/ w.wi[d] # "OK" \/ w.ex[d] \/ w.grp[Grp(w, c)] # "OK"))
CycleKeys == UNION {IF Bad(c) THEN {c \o ".read", c \o ".error"} \cup (IF w.comps[c] = "active" THEN {c \o ".write"} ELSE {}) ELSE {} : c \in Names(w)}
CycleOp == \E op \in {"READ", "WRITE"} : \E out \in Outs(CycleKeys, Names(w)) :
  LET o == [op |-> op, dt |-> 0, p |-> 10000, out |-> out] r == ACycle(w, o, op = "READ") IN Rec(o, r.res, r.calls, r.w)
RunOp == \E c \in Names(w) : \E mid \in {"", "READ", "WRITE"} : \E out \in Outs(RunKeys(c), {c}) :
  LET o == [op |-> "RUN", c |-> c, mid |-> mid, dt |-> 0, p |-> 10000, out |-> out] IN
  /\ w.pend[c] # -1
  /\ mid # "" => Quiet(w, o, mid = "READ")
  /\ LET r == Run(w, o) IN Rec(o, r.ran, r.calls, r.w)
Next == SetOp \/ CycleOp \/ RunOp
Spec == Init /\ [][Next]_vars
View == w

\* a cycle is under way only where hardware may be read
PendServing == \A c \in Names(w) : w.pend[c] # -1 => w.comps[c] \in Serving
\* nothing is left over when a component is brought up
Fresh == [][last'.o.op = "SET" => \A c \in Names(w) :
   (w.comps[c] = "unconfigured" /\ w'.comps[c] \in Serving) \/ (w.comps[c] = "inactive" /\ w'.comps[c] = "active")
     => w'.ri[c] = "OK" /\ w'.wi[c] = "OK" /\ ~w'.ex[c] /\ w'.pend[c] = -1]_vars
\* a failed run is reported by the next cycle, and handled
Reported == [][\A c \in Names(w) :
   /\ (last'.o.op = "READ" /\ w.comps[c] \in Serving /\ (w.ex[c] \/ (w.pend[c] = -1 /\ w.ri[c] # "OK")))
        => (c \in last'.res.n /\ w'.comps[c] \in {"unconfigured", "finalized"})
   /\ (last'.o.op = "WRITE" /\ w.comps[c] = "active" /\ w.wi[c] = "E")
        => (c \in last'.res.n /\ w'.comps[c] \in {"unconfigured", "finalized"})]_vars
\* ... and nothing else is a failure
Honest == [][last'.o.op \in {"READ", "WRITE"} =>
   (last'.res.n # {} => \E c \in Names(w) : Bad(c))]_vars
\* the manager itself never calls the driver, except to handle a failure
NeverInLine == [][last'.o.op \in {"READ", "WRITE"} /\ last'.res.r = "OK" => last'.calls = <<>>]_vars
Writes == [][\A i \in DOMAIN last'.calls : last'.calls[i].cb = "write" => last'.calls[i].st = "active"]_vars
\* one triggered cycle is one run
Once == [][\A c \in Names(w) :
   Len(SelectSeq(last'.calls, LAMBDA k : k.c = c /\ k.cb = "read")) <= 1]_vars
=============================================================================

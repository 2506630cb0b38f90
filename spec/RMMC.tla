-------------------------------- MODULE RMMC --------------------------------
(* Exhaustive exploration of RM for a small robot: every operation with     *)
(* every combination of driver outcomes from every reachable state.         *)
(* With Cover = TRUE every explored transition is printed as a script (the  *)
(* shortest path to its source followed by the operation), so that all of   *)
(* them can be replayed on the implementation.                              *)
EXTENDS RM, Json

CONSTANTS Robot,      \* 1..5, see Comps
          Cover

VARIABLES w, last, hist
vars == <<w, last, hist>>

Comp(n, t, g, cmd, st) == [n |-> n, t |-> t, g |-> g, r |-> 0, as |-> FALSE, bad |-> "", cmd |-> cmd, st |-> st]
Comps ==
  CASE Robot = 1 -> <<Comp("a1", "actuator", "G", <<"a1j/p">>, <<"a1j/p">>),
                      Comp("b1", "system", "G", <<"b1j/p">>, <<"b1j/p">>),
                      Comp("s1", "sensor", "", <<>>, <<"s1/f">>)>>
    [] Robot = 2 -> <<Comp("a1", "actuator", "", <<"a1j/p">>, <<"a1j/p">>),
                      Comp("b1", "system", "G", <<"b1j/p">>, <<"b1j/p">>),
                      Comp("s1", "sensor", "G", <<>>, <<"s1/f">>)>>
    [] Robot = 3 -> <<Comp("a1", "actuator", "G", <<"a1j/p">>, <<"a1j/p">>),
                      Comp("b1", "system", "G", <<"b1j/p">>, <<"b1j/p">>)>>
    [] Robot = 4 -> <<Comp("b1", "system", "", <<"b1j/p", "b1j/v">>, <<"b1j/p">>)>>
    [] Robot = 5 -> <<Comp("s1", "sensor", "G", <<>>, <<"s1/f">>)>>

LoadOpR == [op |-> "LOAD", comps |-> Comps, mut |-> "", out |-> <<>>]
Reset(al) == [op |-> "RESET", cmrate |-> 100, allow |-> al, retn |-> TRUE]
None == [op |-> "NONE"]

Init == \E al \in BOOLEAN :
  LET w0 == EmptyWorld([cmrate |-> 100, allow |-> al, retn |-> TRUE, order |-> <<>>, c |-> <<>>]) IN
  /\ w = Load(w0, LoadOpR).w
  /\ hist = <<Reset(al), LoadOpR>>
  /\ last = [o |-> None, pre |-> w, res |-> FALSE, calls |-> <<>>]

\* outcome maps: only the entries different from OK
Non(m) == LET ks == {k \in DOMAIN m : m[k] # "OK"} IN [k \in ks |-> m[k]]
Maps(doms) ==    \* doms: key -> set of outcomes
  {Non(f) : f \in {g \in [DOMAIN doms -> UNION {doms[k] : k \in DOMAIN doms}] : \A k \in DOMAIN doms : g[k] \in doms[k]}}
SetOuts(c, to) ==
  LET p == PathTo(w.comps[c], to)
      ks == {c \o "." \o cb : cb \in Range(p)} IN
  Maps([k \in ks \cup {c \o ".error"} |-> IF k = c \o ".error" THEN {"OK", "F"} ELSE {"OK", "F", "E", "X"}])
RwOuts(cb) ==
  LET cs == {c \in Names(w) : w.comps[c] \in (IF cb = "read" THEN Serving ELSE {"active"}) /\ ~(cb = "write" /\ IsSensor(w, c))} IN
  Maps([k \in UNION {{c \o "." \o cb, c \o ".error"} : c \in cs} \cup {c \o ".deactivate" : c \in IF cb = "write" THEN cs ELSE {}} |->
     IF \E c \in cs : k = c \o ".error" THEN {"OK", "F"}
     ELSE IF \E c \in cs : k = c \o ".deactivate" THEN {"OK", "E"}
     ELSE {"OK", "E", "D", "X"}])

Rec(o, r, calls, w1) ==
  /\ w' = w1 /\ last' = [o |-> o, pre |-> w, res |-> r, calls |-> calls]
  /\ hist' = IF Cover THEN Append(hist, o) ELSE hist
  /\ Cover => PrintT("@@" \o ToJson(Append(hist, o)))

SetOp == \E c \in Names(w) : \E to \in {"unconfigured", "inactive", "active", "finalized"} : \E out \in SetOuts(c, to) :
  LET o == [op |-> "SET", c |-> c, to |-> to, dt |-> 0, out |-> out] r == SetState(w, c, to, o) IN
  Rec(o, r.res, r.calls, r.w)
Read == \E out \in RwOuts("read") :
  LET o == [op |-> "READ", dt |-> 0, p |-> 10000, out |-> out] r == Cycle(w, o, <<>>, TRUE) IN Rec(o, r.res, r.calls, r.w)
Write == \E out \in RwOuts("write") :
  LET o == [op |-> "WRITE", dt |-> 0, p |-> 10000, out |-> out] r == Cycle(w, o, <<>>, FALSE) IN Rec(o, r.res, r.calls, r.w)
ClaimOp == \E i \in AllCmds(w) :
  LET o == [op |-> "CLAIM", i |-> i, out |-> <<>>] r == Claim(w, i) IN Rec(o, r.res, <<>>, r.w)
ReleaseOp == \E i \in w.held :
  LET o == [op |-> "RELEASE", i |-> i, out |-> <<>>] r == Release(w, i) IN Rec(o, r.res, <<>>, r.w)
Lists == {SetToSeq(S) : S \in {T \in SUBSET AllCmds(w) : Cardinality(T) <= 2}}
ModeOp == \E cb \in {"prepare", "perform"} : \E a \in Lists, b \in Lists :
  \E out \in Maps([k \in {c \o "." \o cb : c \in {d \in Concerned(w, a, b) : w.comps[d] \in Serving}} |-> {"OK", "E"}]) :
  LET o == [op |-> IF cb = "prepare" THEN "PREP" ELSE "PERF", a |-> a, b |-> b, out |-> out] m == Mode(w, a, b, o, cb) IN
  Rec(o, m.res, <<>>, w)
Next == SetOp \/ Read \/ Write \/ ClaimOp \/ ReleaseOp \/ ModeOp
Spec == Init /\ [][Next]_vars
View == w

(* ------------------------------ properties ----------------------------- *)
\* H02
Available == /\ w.acmd = UNION {Cmds(w, c) : c \in {d \in Names(w) : w.comps[d] \in Serving}}
             /\ w.ast = UNION {Sts(w, c) : c \in {d \in Names(w) : w.comps[d] \in Serving}}
\* H01
CallsLegal == [][\A i \in DOMAIN last'.calls :
  LET k == last'.calls[i] IN
  k.st \in (CASE k.cb \in {"error", "read"} -> Serving [] k.cb = "write" -> {"active"} [] OTHER -> From(k.cb))]_vars
FinalStays == [][\A c \in Names(w) : w.comps[c] = "finalized" => w'.comps[c] = "finalized"]_vars
SetHonest == [][last'.o.op = "SET" =>
   LET o == last'.o IN
   /\ last'.res => w'.comps[o.c] = o.to
   /\ (o.out = <<>> /\ (w.comps[o.c] # "finalized" \/ o.to = "finalized")) => last'.res
   /\ \A d \in Names(w) \ {o.c} : w'.comps[d] = w.comps[d] /\ w'.lr[d] = w.lr[d]
   /\ Len(last'.calls) <= 3]_vars
\* H03
ClaimsExact == [][/\ last'.o.op \notin {"CLAIM", "RELEASE"} => w'.held = w.held
                  /\ last'.o.op = "CLAIM" => (last'.res <=> (last'.o.i \in w.acmd \ w.held))
                  /\ last'.o.op = "CLAIM" => w'.held = w.held \cup (IF last'.res THEN {last'.o.i} ELSE {})]_vars
\* H04
Failed(cb) == {c \in Names(w) : Called(last'.calls, c, cb) /\ OutOf(last'.o, c, cb) \in {"E", "X"} \cup (IF cb = "read" THEN {"D"} ELSE {})}
BadGroups == {g \in DOMAIN w.grp : g # "" /\ (w.grp[g] # "OK" \/ w'.grp[g] # "OK")}
Contained == [][last'.o.op \in {"READ", "WRITE"} =>
   LET cb == IF last'.o.op = "READ" THEN "read" ELSE "write"
       F == Failed(cb)
       D == {c \in Names(w) : cb = "write" /\ Called(last'.calls, c, cb) /\ OutOf(last'.o, c, cb) = "D"}
       inbad == {c \in Names(w) : Grp(w, c) \in BadGroups} IN
   /\ \A c \in F : w'.comps[c] \in {"unconfigured", "finalized"} /\ c \in last'.res.n
   /\ last'.res.n \subseteq F \cup D \cup inbad
   /\ (last'.res.r = "ERROR") = (\E c \in last'.res.n : \/ c \in F
                                                         \/ (Grp(w, c) \in BadGroups /\ w'.grp[Grp(w, c)] = "E")
                                                         \/ cb = "read")
   /\ \A c \in Names(w) \ (F \cup D \cup inbad) :
        w'.comps[c] = w.comps[c] /\ (w.comps[c] = "active" /\ ~(cb = "write" /\ IsSensor(w, c)) => Called(last'.calls, c, cb))
   /\ \A c \in D : w'.comps[c] = "inactive" \/ OutOf(last'.o, c, "deactivate") # "OK"
   ]_vars
\* H06
ModeSafe == [][last'.o.op = "PREP" /\ last'.res => Range(last'.o.a) \cup Range(last'.o.b) \subseteq w.acmd
                  /\ (w.cfg.allow \/ \A c \in Names(w) : Range(last'.o.a) \cap Cmds(w, c) # {} => w.comps[c] = "active")]_vars
=============================================================================

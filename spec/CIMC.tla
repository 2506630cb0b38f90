------------------------------- MODULE CIMC -------------------------------
(* Every history of a controller with few values: what C01 and C03 claim.   *)
EXTENDS CI
CONSTANTS Cms, Pars
VARIABLES w, last
vars == <<w, last>>
H(p, n) == [p |-> p, n |-> n]
Hs == {<<>>, <<H("ctl", "a")>>, <<H("ctl", "a"), H("ctl_x", "a")>>, <<H("other", "a")>>}
Outs == {"OK", "F", "E"}
Ops == [op : {"CONF", "ACT", "DEA", "CLE", "SHUT"}, o : Outs, e : BOOLEAN]
  \cup [op : {"PAR"}, r : Pars] \cup [op : {"CHAIN"}, b : BOOLEAN, o : BOOLEAN]
  \cup [op : {"UPD"}, sub : {"OK", "ERROR"}, wr : {"OK", "ERROR"}]
  \cup [op : {"EXPR"}, old : Hs, new : Hs, size : 0..2, v : {7}]
  \cup [op : {"WREF"}, k : 1..2, v : {1, 2}] \cup [op : {"LEND"}, n : {2}]
None == [op |-> "NONE"]
Init == last = None /\ \E c \in BOOLEAN, m \in Cms, o \in {"OK", "F"} : w = Do(World0, [op |-> "NEW", chn |-> c, cm |-> m, o |-> o])
Next == \E o \in Ops : w' = Do(w, o) /\ last' = o
Spec == Init /\ [][Next]_vars
View == w
\* Length of the longest prefix of a name is not modelled: Own lists the prefixes beginning with the controller's name
Claims ==
  /\ w.rate <= w.cm /\ (w.cm > 0 => w.rate > 0)
  /\ \A a, b \in DOMAIN w.refs : a # b => w.refs[a].n # w.refs[b].n
  /\ ~w.chn => w.refs = <<>> /\ ~w.chd
  /\ w.id = Final => w.loans = 0 \/ w.loans = 2
  /\ \A s, r \in {"OK", "ERROR"} : LET u == Update(w, [op |-> "UPD", sub |-> s, wr |-> r]) IN
        /\ w.chn => ("sub" \in {u.calls[k] : k \in DOMAIN u.calls}) = ~w.chd
        /\ ("wr" \in {u.calls[k] : k \in DOMAIN u.calls}) = (~w.chn \/ w.chd \/ s = "OK")
Steps ==
  /\ w.chd # w'.chd => w.id # Act
  /\ w.rate # w'.rate => w.id = Uncf /\ w'.rate = Rate(w.cm, w.par, w.rate)
  /\ w'.id = Final /\ w.id # Final => w'.loans = 0
Moves == [][Steps]_vars
\* the achievable rates are those of a whole number of control cycles per update, and no other one is closer in cycles
Rates == \A cm \in {1, 2, 3, 10, 50, 99, 100, 1000}, r \in 1..100 : r <= cm =>
           LET a == Achievable(cm, r) IN /\ a >= 1 /\ a <= cm
                                         /\ cm % r = 0 => a = r
                                         /\ \E t \in 1..cm : a = cm \div t /\ 2 * (IF t * r > cm THEN t * r - cm ELSE cm - t * r) <= r
ASSUME Rates
=============================================================================

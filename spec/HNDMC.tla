------------------------------- MODULE HNDMC -------------------------------
(* Every history of a small world of handles: holders of one handle agree,  *)
(* nobody else notices.                                                     *)
EXTENDS HND
CONSTANTS Slots, Most, Ts, Loans
VARIABLES w, e, r
vars == <<w, e, r>>
X == [k |-> "empty", n |-> 0]
None == [op |-> "NEW"]
Vals(t) == IF t = "bool" THEN {0, 1} ELSE {5, 9}
S(ww) == DOMAIN ww.slot
Room(ww) == Len(ww.obj) < Most
Free(ww, i) == i \notin S(ww) \/ Lock(ww, ww.slot[i]) = ""
On(ww) == {l \in DOMAIN ww.loan : ww.loan[l].on}
Ops(ww) ==
  (IF Room(ww) THEN {[op |-> "MK", i |-> i, k |-> k, pre |-> "a", nm |-> "b", t |-> t, x |-> X] : i \in {z \in Slots : Free(ww, z)}, k \in {"H", "C"}, t \in Ts}
     \cup {[op |-> "MKP", i |-> i, k |-> k, pre |-> "p", nm |-> "q", c |-> 1] : i \in {z \in Slots : Free(ww, z)}, k \in {"H", "C"}}
     \cup {[op |-> "CP", i |-> i, j |-> j] : i \in {z \in Slots : Free(ww, z)}, j \in {z \in S(ww) : Free(ww, z) /\ At(ww, z).k = "H"}}
     \cup {[op |-> "MV", i |-> i, j |-> j] : i \in {z \in Slots : Free(ww, z)}, j \in {z \in S(ww) : Free(ww, z) /\ \A l \in On(ww) : ww.loan[l].id # ww.slot[z]}}
   ELSE {})
  \cup {[op |-> o, i |-> i, j |-> j] : o \in {"AS", "MA"}, i \in {z \in S(ww) : Free(ww, z) /\ At(ww, z).k = "H"}, j \in {z \in S(ww) : Free(ww, z) /\ At(ww, z).k = "H"}}
  \cup {[op |-> "DROP", i |-> i] : i \in {z \in S(ww) : Free(ww, z)}}
  \cup {[op |-> "CELL", c |-> 1, v |-> v] : v \in Vals("double")}
  \cup UNION {{[op |-> "SET", i |-> i, t |-> t, v |-> v] : v \in Vals(t)} : i \in S(ww), t \in Ts}
  \cup {[op |-> "HOLD", i |-> i, m |-> m] : i \in {z \in S(ww) : Free(ww, z)}, m \in {"excl", "shared"}}
  \cup {[op |-> "REL", i |-> i] : i \in {z \in S(ww) : ~Free(ww, z)}}
  \cup UNION {{[op |-> "WSET", i |-> i, t |-> t, v |-> v] : v \in Vals(t)} : i \in {z \in S(ww) : ~Free(ww, z)}, t \in Ts}
  \cup {[op |-> "LEND", i |-> i, l |-> Len(ww.loan) + 1, del |-> TRUE] : i \in {z \in S(ww) : At(ww, z).k = "C" /\ At(ww, z).src # "nil" /\ Len(ww.loan) < Loans}}
  \cup {[op |-> "LDROP", l |-> l] : l \in On(ww)}
  \cup UNION {{[op |-> "LSET", l |-> l, t |-> t, v |-> v] : v \in Vals(t)} : l \in On(ww), t \in Ts}
  \cup {[op |-> "LIM", i |-> i, lo |-> 6, hi |-> 8] : i \in {z \in S(ww) : Free(ww, z) /\ At(ww, z).k = "C"}}
Init == w = New(1) /\ e = None /\ r = 1
Next == \E o \in Ops(w) : LET d == Do(w, o) IN e' = o /\ w' = d.w /\ r' = d.r
Spec == Init /\ [][Next]_vars
View == w

\* where a value lives
Home(ww, id) == IF ww.obj[id].src = "cell" THEN <<"c", ww.obj[id].c>> ELSE <<"o", id>>
Ids(ww) == {ww.slot[i] : i \in S(ww)} \cup {ww.loan[l].id : l \in On(ww)}
Own(ww, id) == Value(ww, ww.obj[id], ww.obj[id].t)
Sets == {"SET", "WSET", "LSET"}
Target(ww, o) == IF o.op = "LSET" THEN ww.loan[o.l].id ELSE ww.slot[o.i]
\* a write reaches all holders of that value and nobody else
Agree == [][e'.op \in Sets => LET t == Target(w, e') IN
              \A id \in Ids(w) :
                IF r' = 1 /\ Home(w, id) = Home(w, t)
                  THEN Own(w', id) = IF e'.op = "LSET" /\ e'.t = "double" THEN Clamp(w.obj[t], e'.v) ELSE e'.v
                  ELSE Own(w', id) = Own(w, id)]_vars
\* a refused write has no effect; it is refused for the wrong type, or for a lock that is held
Refused == [][e'.op \in Sets /\ r' # 1 => \A id \in Ids(w) : Own(w', id) = Own(w, id)]_vars
Reasons == [][e'.op \in Sets => LET t == Target(w, e') IN
                /\ (r' = 0) <=> (e'.op # "WSET" /\ Lock(w, t) # "")
                /\ r' = THREW => e'.t # w.obj[t].t \/ w.obj[t].src = "nil"]_vars
\* a copy starts with the value and has its own
Copies == [][e'.op = "CP" =>
               /\ Value(w', At(w', e'.i), At(w', e'.i).t) = Value(w, At(w, e'.j), At(w, e'.j).t)
               /\ w.obj[w.slot[e'.j]].src = "own" => \A id \in Ids(w) : Home(w', w'.slot[e'.i]) # Home(w', id)]_vars
\* a moved handle goes on with the same value, the one it came from has none
Moves == [][e'.op = "MV" => /\ Value(w', At(w', e'.i), At(w', e'.i).t) = Value(w, At(w, e'.j), At(w, e'.j).t)
                            /\ w'.obj[w.slot[e'.j]].src = "nil"]_vars
\* anything but a write or an assignment leaves all values
Quiet == [][e'.op \in {"MK", "MKP", "CP", "DROP", "HOLD", "REL", "LEND", "LDROP", "LIM"} => \A id \in Ids(w) \cap Ids(w') : Own(w', id) = Own(w, id)]_vars
\* a loan is given back once
Loaned == \A l \in DOMAIN w.loan : w.loan[l].freed = IF w.loan[l].on THEN 0 ELSE 1
=============================================================================

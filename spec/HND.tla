-------------------------------- MODULE HND --------------------------------
(* Handles of interfaces: typed values with a name, shared by all holders   *)
(* of the same handle (a slot, loans, the component that made it), copied   *)
(* by value, moved with their value, and guarded by a lock each.            *)
(* Values are integer codes; a whole number in a double or float is coded   *)
(* 500000000 more.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == 2000000000
BUSY == 1999999999
THREW == 1999999998
ODD == 1999999997
Plain(n) == 500000000 + n
Types == {"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"}
\* a function with one more (or another) value
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

Range(t) == CASE t = "uint8" -> <<0, 255>> [] t = "int8" -> <<-128, 127>> [] t = "uint16" -> <<0, 65535>>
              [] t = "int16" -> <<-32768, 32767>> [] t = "int32" -> <<-2147483647 - 1, 2147483647>> [] t = "uint32" -> <<0, 2147483647>>
\* initial values: x is [k, n]; the upper half of uint32 is coded negative
Default(t) == CASE t \in {"double", "float32"} -> NaN [] t = "bool" -> 0 [] t = "uint32" -> -1 [] OTHER -> Range(t)[2]
Parse(t, x) ==
  CASE x.k = "empty" -> Default(t)
    [] x.k = "bool" -> IF t = "bool" THEN x.n ELSE THREW
    [] x.k = "int" -> IF t \in {"double", "float32"} THEN Plain(x.n) ELSE IF t = "bool" THEN THREW
                      ELSE IF x.n >= Range(t)[1] /\ x.n <= Range(t)[2] THEN x.n ELSE THREW
    [] x.k = "half" -> IF t = "float32" THEN x.n ELSE IF t = "double" THEN ODD ELSE THREW
    [] x.k = "big" -> IF t = "uint32" THEN x.n ELSE IF t \in {"double", "float32"} THEN ODD ELSE THREW
    [] x.k = "huge" -> IF t \in {"double", "float32"} THEN ODD ELSE THREW
    [] OTHER -> THREW
\* what a value of code n reads as after it went through type t
Fit(t, n) ==
  CASE t \in {"double", "float32", "uint32", "int32"} -> n
    [] t = "bool" -> IF n = 0 THEN 0 ELSE 1
    [] t \in {"uint8", "uint16"} -> n % (Range(t)[2] + 1)
    [] OTHER -> LET m == 2 * (Range(t)[2] + 1) r == n % m IN IF r > Range(t)[2] THEN r - m ELSE r

\* objects: src: "own" value v, "cell" c (memory of somebody else), "nil" (nothing, after a move)
Obj(k, pre, nm, t, src, v, c) ==
  [k |-> k, pre |-> pre, nm |-> nm, full |-> pre \o "/" \o nm, t |-> t, src |-> src, v |-> v, c |-> c, lim |-> <<>>, il |-> FALSE]
Nil(o) == [o EXCEPT !.pre = "", !.nm = "", !.full = "", !.t = "double", !.src = "nil", !.v = 0, !.c = 0]
New(n) == [slot |-> <<>>, obj |-> <<>>, cell |-> [i \in 1..n |-> i], loan |-> <<>>, comp |-> <<>>, lk |-> <<>>]
At(w, i) == w.obj[w.slot[i]]
Lock(w, id) == IF id \in DOMAIN w.lk THEN w.lk[id] ELSE ""

\* reading and writing an object, without its lock
Value(w, o, t) ==
  IF t = "double"
    THEN IF o.t = "double" THEN CASE o.src = "own" -> o.v [] o.src = "cell" -> w.cell[o.c] [] o.src = "nil" -> THREW
         ELSE IF o.t = "bool" THEN Plain(o.v) ELSE THREW
  ELSE IF o.src = "own" /\ o.t = t THEN o.v ELSE THREW
Writes(o, t) == IF t = "double" THEN o.t = "double" /\ o.src # "nil" ELSE o.src = "own" /\ o.t = t
Store(w, id, v) ==
  IF w.obj[id].src = "cell" THEN [w EXCEPT !.cell[w.obj[id].c] = v] ELSE [w EXCEPT !.obj[id].v = Fit(w.obj[id].t, v)]
\* and under the lock, if that can be had
Read(w, id, t) == IF Lock(w, id) = "excl" THEN BUSY ELSE Value(w, w.obj[id], t)
Set(w, id, t, v) ==
  IF Lock(w, id) # "" THEN [w |-> w, r |-> 0]
  ELSE IF Writes(w.obj[id], t) THEN [w |-> Store(w, id, v), r |-> 1] ELSE [w |-> w, r |-> THREW]
\* through a loan a double first passes the limiter
Clamp(o, v) == IF o.lim = <<>> \/ v = NaN THEN v ELSE IF v < o.lim[1] THEN o.lim[1] ELSE IF v > o.lim[2] THEN o.lim[2] ELSE v
LoanSet(w, id, t, v) ==
  IF t # "double" THEN Set(w, id, t, v)
  ELSE LET x == Clamp(w.obj[id], v) IN Set([w EXCEPT !.obj[id].il = (x # v)], id, t, x)

Fresh(w, i, o) == [w EXCEPT !.obj = Append(@, o), !.slot = Put(@, i, Len(w.obj) + 1)]
Moved(to, from) == [to EXCEPT !.pre = from.pre, !.nm = from.nm, !.full = from.full, !.t = from.t, !.src = from.src, !.v = from.v, !.c = from.c]
Key(k, full) == k \o full
RECURSIVE AddAll(_, _, _)
AddAll(w, fs, n) ==
  IF n > Len(fs) THEN w
  ELSE LET f == fs[n] o == Obj(f.k, f.pre, f.nm, f.t, "own", Parse(f.t, f.x), 0)
           w1 == Fresh(w, f.i, o) IN
       AddAll([w1 EXCEPT !.comp = Put(@, Key(f.k, o.full), Len(w1.obj))], fs, n + 1)
Good(t, x) == t \in Types /\ Parse(t, x) # THREW

Do(w, e) ==
  CASE e.op = "MK" -> IF Good(e.t, e.x) THEN [w |-> Fresh(w, e.i, Obj(e.k, e.pre, e.nm, e.t, "own", Parse(e.t, e.x), 0)), r |-> 1]
                      ELSE [w |-> w, r |-> THREW]
    [] e.op = "MKP" -> [w |-> Fresh(w, e.i, Obj(e.k, e.pre, e.nm, "double", "cell", 0, e.c)), r |-> 1]
    [] e.op = "CP" -> [w |-> Fresh(w, e.i, At(w, e.j)), r |-> 1]
    [] e.op = "MV" -> LET a == At(w, e.j) IN
         [w |-> Fresh([w EXCEPT !.obj[w.slot[e.j]] = Nil(a)], e.i, a), r |-> 1]
    [] e.op = "AS" -> [w |-> [w EXCEPT !.obj[w.slot[e.i]] = Moved(@, At(w, e.j))], r |-> 1]
    [] e.op = "MA" -> LET a == At(w, e.i) b == At(w, e.j) IN
         [w |-> [w EXCEPT !.obj[w.slot[e.i]] = Moved(a, b), !.obj[w.slot[e.j]] = IF w.slot[e.i] = w.slot[e.j] THEN @ ELSE Moved(b, a)], r |-> 1]
    [] e.op = "DROP" -> [w |-> [w EXCEPT !.slot = [i \in DOMAIN @ \ {e.i} |-> @[i]]], r |-> 1]
    [] e.op = "CELL" -> [w |-> [w EXCEPT !.cell[e.c] = e.v], r |-> 1]
    [] e.op = "SET" -> Set(w, w.slot[e.i], e.t, e.v)
    [] e.op = "GET" -> [w |-> w, r |-> Read(w, w.slot[e.i], e.t)]
    [] e.op = "HOLD" -> [w |-> [w EXCEPT !.lk = Put(@, w.slot[e.i], e.m)], r |-> 1]
    [] e.op = "REL" -> [w |-> [w EXCEPT !.lk = Put(@, w.slot[e.i], "")], r |-> 1]
    [] e.op = "WSET" -> Set([w EXCEPT !.lk = Put(@, w.slot[e.i], "")], w.slot[e.i], e.t, e.v)
    [] e.op = "WGET" -> [w |-> [w EXCEPT !.lk = Put(@, w.slot[e.i], "")], r |-> Value(w, At(w, e.i), e.t)]
    [] e.op = "RACE" -> Set(w, w.slot[e.i], e.t, e.v)  \* others write and read at the same time, e.v is last
    [] e.op = "LEND" -> [w |-> [w EXCEPT !.loan = Put(@, e.l, [id |-> w.slot[e.i], on |-> TRUE, freed |-> 0, del |-> e.del])], r |-> 1]
    [] e.op = "LMV" -> [w |-> w, r |-> 1]
    [] e.op = "LDROP" -> [w |-> [w EXCEPT !.loan[e.l].on = FALSE, !.loan[e.l].freed = @ + (IF w.loan[e.l].on /\ w.loan[e.l].del THEN 1 ELSE 0)], r |-> 1]
    [] e.op = "LSET" -> LoanSet(w, w.loan[e.l].id, e.t, e.v)
    [] e.op = "LGET" -> [w |-> w, r |-> Read(w, w.loan[e.l].id, e.t)]
    [] e.op = "LIM" -> [w |-> [w EXCEPT !.obj[w.slot[e.i]].lim = <<e.lo, e.hi>>], r |-> 1]
    [] e.op = "COMP" -> IF \A n \in DOMAIN e.ifs : Good(e.ifs[n].t, e.ifs[n].x) THEN [w |-> AddAll(w, e.ifs, 1), r |-> 1]
                        ELSE [w |-> w, r |-> THREW]
    [] e.op = "CSET" -> IF Key(e.k, e.nm) \notin DOMAIN w.comp THEN [w |-> w, r |-> THREW]
                        ELSE Set(w, w.comp[Key(e.k, e.nm)], e.t, e.v)
    [] e.op = "CGET" -> IF Key(e.k, e.nm) \notin DOMAIN w.comp THEN [w |-> w, r |-> THREW]
                        ELSE [w |-> w, r |-> Read(w, w.comp[Key(e.k, e.nm)], e.t)]
    [] e.op = "HAS" -> [w |-> w, r |-> IF Key(e.k, e.nm) \in DOMAIN w.comp THEN 1 ELSE 0]

\* what the holders see
SeesSlot(w, i) == LET o == At(w, i) IN
  [i |-> i, pre |-> o.pre, nm |-> o.nm, full |-> o.full, t |-> o.t, ok |-> o.src # "nil", ptr |-> o.src = "cell" \/ (o.src = "own" /\ o.t = "double"),
   v |-> Read(w, w.slot[i], o.t), il |-> o.il]
SeesLoan(w, l) == LET x == w.loan[l] IN
  [l |-> l, freed |-> x.freed, on |-> x.on, full |-> IF x.on THEN w.obj[x.id].full ELSE "", v |-> IF x.on THEN Read(w, x.id, w.obj[x.id].t) ELSE 0]
=============================================================================

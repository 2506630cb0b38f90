------------------------------- MODULE HNDGen ------------------------------
EXTENDS HND, Json
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(x) == Rnd(1..100) <= x
TSeq == <<"double", "double", "double", "double", "float32", "bool", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32">>
Texts == <<[txt |-> "0", k |-> "int", n |-> 0], [txt |-> "7", k |-> "int", n |-> 7], [txt |-> "-3", k |-> "int", n |-> -3],
  [txt |-> "+5", k |-> "int", n |-> 5], [txt |-> "127", k |-> "int", n |-> 127], [txt |-> "128", k |-> "int", n |-> 128],
  [txt |-> "-128", k |-> "int", n |-> -128], [txt |-> "-129", k |-> "int", n |-> -129], [txt |-> "255", k |-> "int", n |-> 255],
  [txt |-> "256", k |-> "int", n |-> 256], [txt |-> "32767", k |-> "int", n |-> 32767], [txt |-> "32768", k |-> "int", n |-> 32768],
  [txt |-> "-32768", k |-> "int", n |-> -32768], [txt |-> "-32769", k |-> "int", n |-> -32769], [txt |-> "65535", k |-> "int", n |-> 65535],
  [txt |-> "65536", k |-> "int", n |-> 65536], [txt |-> "4294967295", k |-> "big", n |-> -1], [txt |-> "4294967296", k |-> "huge", n |-> 0],
  [txt |-> "99999999999", k |-> "huge", n |-> 0], [txt |-> "1.5", k |-> "half", n |-> 1], [txt |-> "-2.5", k |-> "half", n |-> -3],
  [txt |-> "15e-1", k |-> "half", n |-> 1], [txt |-> "true", k |-> "bool", n |-> 1], [txt |-> "False", k |-> "bool", n |-> 0],
  [txt |-> "TRUE", k |-> "bool", n |-> 1], [txt |-> "abc", k |-> "bad", n |-> 0], [txt |-> "nan", k |-> "bad", n |-> 0],
  [txt |-> "inf", k |-> "bad", n |-> 0], [txt |-> "1,5", k |-> "bad", n |-> 0], [txt |-> "5x", k |-> "bad", n |-> 0], [txt |-> "--1", k |-> "bad", n |-> 0]>>
Empty == [txt |-> "", k |-> "empty", n |-> 0]
GoodTexts(t) == {n \in DOMAIN Texts : Parse(t, Texts[n]) # THREW}
RandX(t) == IF P(35) THEN Empty ELSE IF P(80) /\ t \in Types THEN Texts[Rnd(GoodTexts(t))] ELSE Pick(Texts)
RandT(z) == Pick(TSeq)
Val(t) ==
  CASE t \in {"double", "float32"} -> IF P(8) THEN NaN ELSE Rnd(-60..60)
    [] t = "bool" -> Rnd(0..1)
    [] t = "uint32" -> IF P(20) THEN -Rnd(1..9) ELSE Rnd(0..100000)
    [] OTHER -> LET r == Range(t) IN IF P(25) THEN r[Rnd(1..2)] ELSE IF P(50) /\ r[1] < 0 THEN -Rnd(1..100) ELSE Rnd(0..120)
Slots == 1..6
Pres == <<"j1", "j2", "">>
Nms == <<"position", "velocity", "a/b">>
Free(ww) == {i \in Slots \cup (7..12) : i \notin DOMAIN ww.slot \/ TRUE}
Unheld(ww) == {i \in DOMAIN ww.slot : Lock(ww, ww.slot[i]) = ""}
Heldd(ww) == {i \in DOMAIN ww.slot : Lock(ww, ww.slot[i]) # ""}
Kind(ww, ks) == {i \in Unheld(ww) : At(ww, i).k \in ks}
\* a slot whose object is not locked may be overwritten
Target(ww) == Slots \ Heldd(ww)
\* mostly the type that fits
TypeFor(o) == IF P(80) THEN o.t ELSE RandT(0)
Loans(ww) == {i \in DOMAIN ww.loan : ww.loan[i].on}
Unlent(ww, i) == ~\E x \in DOMAIN ww.loan : ww.loan[x].on /\ ww.loan[x].id = ww.slot[i]
CKeys == <<[pre |-> "j1", nm |-> "position", in |-> "j"], [pre |-> "j1", nm |-> "velocity", in |-> "j"], [pre |-> "j2", nm |-> "position", in |-> "j"],
           [pre |-> "g", nm |-> "io", in |-> "g"], [pre |-> "u", nm |-> "extra", in |-> "x"], [pre |-> "s", nm |-> "force", in |-> "s"]>>
RandIf(n, k, i) == LET t == RandT(0) IN
  [i |-> i, k |-> k, pre |-> CKeys[n].pre, nm |-> CKeys[n].nm, in |-> CKeys[n].in, t |-> t,
   x |-> IF P(97) THEN (IF P(50) THEN Empty ELSE Texts[Rnd(GoodTexts(t))]) ELSE Pick(Texts)]
RandComp(z) ==
  LET ss == {n \in 1..6 : P(60)} cs == {n \in 1..5 : P(60)}
      sq == [n \in 1..6 |-> IF n \in ss THEN <<RandIf(n, "S", 20 + n)>> ELSE <<>>]
      cq == [n \in 1..5 |-> IF n \in cs THEN <<RandIf(n, "C", 30 + n)>> ELSE <<>>] IN
  [op |-> "COMP", ifs |-> sq[1] \o sq[2] \o sq[3] \o sq[4] \o sq[5] \o sq[6] \o cq[1] \o cq[2] \o cq[3] \o cq[4] \o cq[5]]
WithTxt(o) == IF o.op = "COMP" THEN [o EXCEPT !.ifs = [n \in DOMAIN @ |-> @[n] @@ [txt |-> @[n].x.txt]]] ELSE o
Mk(ww) == LET t == IF P(95) THEN RandT(0) ELSE Pick(<<"string", "int64", "">>) x == RandX(t) IN
  [op |-> "MK", i |-> Rnd(Target(ww)), k |-> Pick(<<"H", "S", "C">>), pre |-> Pick(Pres), nm |-> Pick(Nms), t |-> t, x |-> x, txt |-> x.txt, m |-> Pick(<<"desc", "str">>)]
Sm(ww, i) == IF Lock(ww, ww.slot[i]) # "" THEN Pick(<<"try", "tryf", "lock">>) ELSE Pick(<<"try", "tryf", "lock", "wait">>)
Gm(ww, i) == IF Lock(ww, ww.slot[i]) = "excl" THEN Pick(<<"opt", "val", "lock">>) ELSE Pick(<<"opt", "val", "lock", "wait">>)
CName(ww, k) == LET f == {i \in DOMAIN ww.slot : i > 20 /\ At(ww, i).k = k} IN
  IF f # {} /\ P(90) THEN At(ww, Rnd(f)).full ELSE Pick(<<"j1/position", "nothing", "">>)
Op(ww) ==
  LET k == Rnd(1..100) s == DOMAIN ww.slot u == Unheld(ww) IN
  IF k <= 10 \/ s = {} THEN Mk(ww)
  ELSE IF k <= 13 THEN [op |-> "MKP", i |-> Rnd(Target(ww)), k |-> Pick(<<"H", "S", "C">>), pre |-> Pick(Pres), nm |-> Pick(Nms), c |-> Rnd(1..2)]
  ELSE IF k <= 19 /\ Kind(ww, {"H", "S"}) # {} THEN [op |-> "CP", i |-> Rnd(Target(ww)), j |-> Rnd(Kind(ww, {"H", "S"}))]
  ELSE IF k <= 25 /\ {i \in u : i <= 20 /\ Unlent(ww, i)} # {}
         THEN [op |-> "MV", i |-> Rnd(Target(ww)), j |-> Rnd({i \in u : i <= 20 /\ Unlent(ww, i)})]
  ELSE IF k <= 33 /\ Kind(ww, {"H"}) # {} THEN [op |-> Pick(<<"AS", "MA">>), i |-> Rnd(Kind(ww, {"H"})), j |-> Rnd(Kind(ww, {"H"}))]
  ELSE IF k <= 35 /\ u # {} THEN [op |-> "DROP", i |-> Rnd(u)]
  ELSE IF k <= 37 THEN [op |-> "CELL", c |-> Rnd(1..2), v |-> Val("double")]
  ELSE IF k <= 52 THEN LET i == Rnd(s) t == TypeFor(At(ww, i)) IN [op |-> "SET", i |-> i, t |-> t, v |-> Val(t), m |-> Sm(ww, i)]
  ELSE IF k = 53 /\ {i \in u : Writes(At(ww, i), At(ww, i).t)} # {} THEN
    LET i == Rnd({z \in u : Writes(At(ww, z), At(ww, z).t)}) t == At(ww, i).t IN [op |-> "RACE", i |-> i, t |-> t, v |-> Val(t), v2 |-> Val(t)]
  ELSE IF k <= 58 THEN LET i == Rnd(s) t == TypeFor(At(ww, i)) IN [op |-> "GET", i |-> i, t |-> t, m |-> Gm(ww, i)]
  ELSE IF k <= 62 THEN
    IF Heldd(ww) = {} /\ u # {} THEN [op |-> "HOLD", i |-> Rnd(u), m |-> Pick(<<"excl", "excl", "shared">>)]
    ELSE IF Heldd(ww) # {} THEN
      LET i == Rnd(Heldd(ww)) t == TypeFor(At(ww, i)) q == Rnd(1..3) IN
      IF q = 1 THEN [op |-> "REL", i |-> i] ELSE IF q = 2 THEN [op |-> "WSET", i |-> i, t |-> t, v |-> Val(t), us |-> Pick(<<100, 1000>>)]
      ELSE IF Lock(ww, ww.slot[i]) = "excl" THEN [op |-> "WGET", i |-> i, t |-> t, us |-> Pick(<<100, 1000>>)] ELSE [op |-> "REL", i |-> i]
    ELSE Mk(ww)
  ELSE IF k <= 69 /\ {i \in s : At(ww, i).k # "H" /\ At(ww, i).src # "nil"} # {}
         THEN [op |-> "LEND", i |-> Rnd({i \in s : At(ww, i).k # "H" /\ At(ww, i).src # "nil"}), l |-> Len(ww.loan) + 1, del |-> P(75)]
  ELSE IF k <= 84 /\ Loans(ww) # {} THEN
    LET l == Rnd(Loans(ww)) o == ww.obj[ww.loan[l].id] t == TypeFor(o) q == Rnd(1..20) IN
    IF q <= 12 /\ o.k = "C" THEN [op |-> "LSET", l |-> l, t |-> t, v |-> Val(t), n |-> Pick(<<1, 2, 10>>)]
    ELSE IF q <= 15 THEN [op |-> "LGET", l |-> l, t |-> t, n |-> Pick(<<0, 1, 10>>)]
    ELSE IF q <= 17 THEN [op |-> "LMV", l |-> l] ELSE [op |-> "LDROP", l |-> l]
  ELSE IF k <= 88 /\ Kind(ww, {"C"}) # {} THEN LET a == Rnd(-30..30) IN [op |-> "LIM", i |-> Rnd(Kind(ww, {"C"})), lo |-> a, hi |-> a + Rnd(0..30)]
  ELSE IF ww.comp = <<>> /\ P(60) /\ Heldd(ww) = {} THEN WithTxt(RandComp(0))
  ELSE IF ww.comp # <<>> THEN
    LET kk == Pick(<<"S", "C">>) nm == CName(ww, kk) kn == Key(kk, nm)
        o == IF kn \in DOMAIN ww.comp THEN ww.obj[ww.comp[kn]] ELSE ww.obj[1]
        t == TypeFor(o) q == Rnd(1..10)
        free == kn \notin DOMAIN ww.comp \/ Lock(ww, ww.comp[kn]) = "" IN
    IF q = 1 THEN [op |-> "HAS", k |-> kk, nm |-> nm]
    ELSE IF q <= 6 THEN [op |-> "CSET", k |-> kk, nm |-> nm, t |-> t, v |-> Val(t), m |-> IF free THEN Pick(<<"name", "wait", "try">>) ELSE "try"]
    ELSE [op |-> "CGET", k |-> kk, nm |-> nm, t |-> t, m |-> IF free THEN Pick(<<"name", "wait", "try">>) ELSE "try"]
  ELSE Mk(ww)
Init == hist = <<>> /\ w = New(2)
Next == IF hist = <<>> THEN hist' = <<[op |-> "NEW", cells |-> 2]>> /\ UNCHANGED w
        ELSE \E o \in {TLCEval(Op(w))} : hist' = Append(hist, o) /\ w' = Do(w, o).w
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE SPGen -------------------------------
EXTENDS SP, Json, TLC
CONSTANTS D
VARIABLES w, hist
vars == <<w, hist>>
Rnd(S) == RandomElement(S)
Pick(s) == s[Rnd(DOMAIN s)]
P(n) == Rnd(1..100) <= n
Some(s, n) == LET t == {s[i] : i \in {i \in DOMAIN s : P(n)}} in(x) == x \in t IN Filter(s, in)
Perms == <<<<"c1", "c2", "c3">>, <<"c2", "c1", "c3">>, <<"c3", "c2", "c1">>, <<"c2", "c3", "c1">>, <<"c1", "c1", "c2">>>>
Names(z) == SubSeq(Pick(Perms), 1, Rnd(1..3))
File(z) == Pick(<<"c1.yaml", "c2.yaml", "c3.yaml", "wild.yaml", "wild.yaml", "ns.yaml", "other.yaml">>)
Files(z) == LET n == Pick(<<0, 0, 1, 1, 2, 3>>) IN IF n = 0 THEN <<>> ELSE [i \in 1..n |-> IF P(1) THEN "missing.yaml" ELSE File(0)]
Args(z) == Pick(<<<<>>, <<>>, <<>>, <<<<"--ros-args", "-r", "a:=b">>>>, <<<<"--ros-args", "-r", "a:=b">>, <<"--ros-args", "-p", "use:=1">>>>>>)
Opt(n) == [n |-> n, lo |-> P(15), ina |-> P(15), pf |-> Files(0), ra |-> Args(0)]
Ctls(ns, adv) ==
  IF adv THEN [i \in DOMAIN ns |-> Opt(ns[i])]
  ELSE LET o == TLCEval(Opt("")) IN [i \in DOMAIN ns |-> [o EXCEPT !.n = ns[i]]]
Fault(S, kinds) == [k |-> Pick(S), f |-> Pick(kinds)]
\* at most one fault for a key
Plan(S, kinds, n) ==
  LET raw == TLCEval([i \in 1..n |-> Fault(S, kinds)])
      first(i) == \A h \in 1..(i - 1) : raw[h].k # raw[i].k
      keep == {i \in 1..n : first(i)}
      f[k \in 0..n] == IF k = 0 THEN <<>> ELSE IF k \in keep THEN Append(f[k - 1], raw[k]) ELSE f[k - 1] IN TLCEval(f[n])
Count(z) == Pick(<<0, 0, 0, 1, 1, 1, 2, 3>>)
Cat(s, t) == s \o t
Keys(ns, pre) == [i \in DOMAIN ns |-> pre \o ns[i]]
ParKeys(ns) == Keys(ns, "par.") 
SpawnFaults(ns) ==
  LET n == Count(0) r == Rnd(1..10) IN
  IF n = 0 THEN <<>>
  ELSE IF r <= 5 THEN Plan(Keys(ns, "load.") \o Keys(ns, "conf.") \o Keys(ns, "act.") \o <<"act.*", "act.*">>, <<"no", "no", "late", "lost", "int0", "int1", "int0", "int1">>, n)
  ELSE IF r <= 7 THEN Plan(Keys(ns, "dea.") \o <<"dea.*", "dea.*">> \o Keys(ns, "unl.") , <<"no", "no", "late", "lost">>, n)
  ELSE IF r = 8 THEN LET q == Pick(<<"node_options_args", "params_file", "type", "fallback_controllers">>) IN
                     Plan([i \in DOMAIN ns |-> "par." \o ns[i] \o "." \o q], <<"no", "no", "late", "lost", "int0", "int1">>, n)
  ELSE IF r = 9 THEN Plan(<<"list">>, <<"late", "lost", "int0", "int1">>, 1)
  ELSE <<[k |-> "gone." \o Pick(<<"list", "load", "conf", "unl">>), f |-> "gone"]>>
Ns(z) == Pick(<<"/", "/", "/ns">>)
Cm(z) == Pick(<<"", "", "cm2", "/abs/cm">>)
SpawnOp(z) ==
  LET ns == TLCEval(Names(0)) adv == TLCEval(P(50)) IN
  [op |-> "SPAWN", ctls |-> Ctls(ns, adv), cm |-> Cm(0), group |-> P(40), unl |-> P(45), asap |-> Pick(<<"default", "yes", "no">>),
   to |-> Pick(<<5, 5, 3, 20>>), adv |-> adv, last |-> P(50), rpf |-> IF P(25) THEN File(0) ELSE "", ns |-> Ns(0),
   lockf |-> IF P(10) THEN Rnd(1..6) ELSE 0, faults |-> SpawnFaults(ns)]
UnspawnOp(z) ==
  LET ns == TLCEval(Names(0)) IN
  [op |-> "UNSPAWN", names |-> ns, cm |-> Cm(0), to |-> Pick(<<5, 3, 20>>), ns |-> Ns(0),
   faults |-> Plan(<<"dea.*", "dea.*">> \o Keys(ns, "dea.") \o Keys(ns, "unl."), <<"no", "no", "late", "lost", "int0", "int1">>, Count(0))]
HwOp(z) ==
  LET ns == TLCEval(Some(<<"h1", "h2", "h3">>, 60)) ms == IF ns = <<>> THEN <<"h2">> ELSE ns IN
  [op |-> "HWSPAWN", names |-> ms, cm |-> Cm(0), ns |-> Ns(0), what |-> Pick(<<"activate", "configure">>),
   faults |-> IF P(10) THEN <<[k |-> "gone.hwlist", f |-> "gone"]>> ELSE Plan(Keys(ms, "hw.") \o <<"hwlist">>, <<"no", "late", "lost", "int0", "int1">>, Count(0))]
ExtOp(z) ==
  LET cs == TLCEval(Range(Some(<<"c1", "c2", "c3", "c4">>, 50))) IN
  [op |-> "EXT", ctl |-> [c \in cs |-> Pick(<<"-", "-", "U", "I", "A">>)], hw |-> Some(<<"h1", "h2", "h3">>, 60)]
\* a list cannot be refused
Sane(o) == IF o.op \notin {"SPAWN", "HWSPAWN", "UNSPAWN"} THEN o
           ELSE [o EXCEPT !.faults = [i \in DOMAIN @ |-> IF @[i].k \in {"list", "hwlist"} /\ @[i].f = "no" THEN [@[i] EXCEPT !.f = "lost"] ELSE @[i]]]
Op(z) == LET r == Rnd(1..100) IN CASE r <= 55 -> SpawnOp(0) [] r <= 70 -> UnspawnOp(0) [] r <= 80 -> HwOp(0) [] OTHER -> ExtOp(0)
Init == hist = <<>> /\ w = World0
Next == \E o \in {TLCEval(IF hist = <<>> THEN [op |-> "RESET"] ELSE Sane(Op(0)))} : hist' = Append(hist, o) /\ w' = w
Emit == Len(hist) < D \/ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================

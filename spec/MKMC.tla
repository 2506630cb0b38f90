-------------------------------- MODULE MKMC --------------------------------
(* Claims about the mock hardware, for every history of a few operations on   *)
(* a family of small descriptions.                                            *)
EXTENDS MK, TLC
CONSTANTS MaxLen, Fake, Offs
VARIABLES w, last
vars == <<w, last>>
I(n, v) == [n |-> n, iv |-> v]
JA(cmd, st) == [n |-> "joint1", cmd |-> cmd, st |-> st, of |-> "", mul |-> 1, mo |-> 0]
JB(st) == [n |-> "joint10", cmd |-> <<>>, st |-> st, of |-> "joint1", mul |-> -2, mo |-> 1024]
Firsts == {JA(<<"position">>, <<I("position", 4096), I("velocity", NaN), I("acceleration", NaN)>>),
           JA(<<"position", "velocity", "acceleration">>, <<I("position", NaN), I("velocity", NaN), I("acceleration", NaN)>>),
           JA(<<"velocity", "acceleration">>, <<I("position", 1024)>>),
           JA(<<"velocity", "effort">>, <<I("position", NaN), I("velocity", 4096), I("effort", 4096), I("actual", NaN)>>),
           JA(<<"position", "brake">>, <<I("brake", 4096), I("actual", 1024)>>)}
Seconds == {<<>>, <<JB(<<I("position", 4096), I("velocity", NaN), I("acceleration", NaN)>>)>>, <<JB(<<I("velocity", 1024)>>)>>}
Confs == {[op |-> "NEW", dyn |-> d, dis |-> s, ms |-> m, mg |-> m, off |-> o, cust |-> u, joints |-> <<f>> \o g,
           sens |-> <<[n |-> "ft", st |-> <<I("x", 1024)>>]>>, gpios |-> <<[n |-> "joint1_io", cmd |-> <<"v">>, st |-> <<I("v", NaN), I("u", 4096)>>]>>] :
           d \in BOOLEAN, s \in {FALSE}, m \in Fake, o \in Offs, u \in {"", "actual"}, f \in Firsts, g \in Seconds}
         \cup {[op |-> "NEW", dyn |-> d, dis |-> TRUE, ms |-> TRUE, mg |-> TRUE, off |-> 2048, cust |-> "", joints |-> <<f>>,
           sens |-> <<[n |-> "ft", st |-> <<I("x", 1024)>>]>>, gpios |-> <<>>] : d \in BOOLEAN, f \in Firsts}
Vals(k, c) == IF k \in BoolKeys(c) THEN {0, One} ELSE {NaN, Inf, 4096, -8192}
Starts(c) == {<<Key("joint1", i)>> : i \in Range(c.joints[1].cmd)} \cup {<<Key("joint1", i), Key("joint1", h)>> : i, h \in Range(c.joints[1].cmd)}
           \cup {<<Key("joint1_io", "v")>>}
Ops(x) ==
       {[op |-> "READ", q |-> q] : q \in {0, 2}}
  \cup {[op |-> "SETC", k |-> k, v |-> v] : k \in DOMAIN x.cm, v \in {v \in {NaN, Inf, 4096, -8192, 0, One} : TRUE}}
  \cup {[op |-> "PERF", start |-> s, stop |-> <<>>] : s \in {s \in Starts(x.c) : Accepts(x.c, Range(s))}}
  \cup {[op |-> "LIFE", to |-> t] : t \in {"unconfigured", "active"} \ {x.life}}
Init == \E c \in Confs : w \in {New(c), Do(New(c), [op |-> "LIFE", to |-> "active"])} /\ last = [op |-> "NEW"]
Next == TLCGet("level") <= MaxLen /\ w.life # "finalized" /\ \E o \in {o \in Ops(w) : o.op # "SETC" \/ o.v \in Vals(o.k, w.c)} : last' = o /\ w' = Do(w, o)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
J(n) == CHOOSE j \in Range(w.c.joints) : j.n = n
Good == w.ready /\ w.life = "active" /\ w'.life = "active"
Read == last'.op = "READ" /\ Good
Has(k) == k \in DOMAIN w.st
\* reading changes nothing when it is disabled, and commands never
Disabled == [][(w.c.dis /\ last'.op = "READ") => w'.st = w.st]_vars
Commands == [][last'.op # "SETC" => w'.cm = w.cm]_vars
OnlyReads == [][last'.op \in {"SETC", "PERF", "PREP"} => w'.st = w.st]_vars
\* a command becomes the state of the same name
Reflects ==
  [][(Read /\ ~w.c.dis) =>
      \A k \in DOMAIN w.st \cap DOMAIN w.cm :
        LET v == w.cm[k] IN
        /\ (k \notin {Key("joint1", i) : i \in PVA \cup {"actual"}} /\ Fin(v)) => w'.st[k] = v
        /\ (~w.c.dyn /\ k = Key("joint1", "position") /\ Fin(v)) => w'.st[k] = v + OwnOffset(w.c)
        /\ (w.c.dyn /\ k = Key("joint1", "position") /\ w.mode["joint1"] = "position" /\ Fin(v)) => w'.st[k] = v + OwnOffset(w.c)
        /\ (w.c.dyn /\ k = Key("joint1", "velocity") /\ w.mode["joint1"] = "velocity" /\ Fin(v)) => w'.st[k] = v
        /\ (w.c.dyn /\ k = Key("joint1", "acceleration") /\ w.mode["joint1"] = "acceleration" /\ Fin(v)) => w'.st[k] = v
        /\ (~w.c.dyn /\ Fin(v) /\ k \in {Key("joint1", i) : i \in PVA \ {"position"}}) => w'.st[k] = v]_vars
\* states nobody commands stay as they were described
Unmoved(k) == k \notin DOMAIN w.cm /\ ~(w.c.dyn /\ k \in {Key("joint1", i) : i \in PVA}) /\ k \notin {Key("joint10", i) : i \in PVA}
              /\ ~(w.c.cust # "" /\ k = Key("joint1", w.c.cust))
Untouched ==
  [][\A k \in DOMAIN w.st : Unmoved(k) => \/ w'.st[k] = w.st[k] \/ (w.life = "unconfigured" /\ w.fresh)]_vars
Initially == w.life = "unconfigured" /\ w.fresh => w.st = Initial(w.c)
\* configured again: nothing moves
Again == [][(last'.op = "LIFE" /\ ~w.fresh) => w'.st = w.st]_vars
\* mimic joints follow
Follows ==
  [][(Read /\ ~w.c.dis /\ Len(w.c.joints) = 2) =>
      \A i \in PVA : (Has(Key("joint10", i)) /\ Has(Key("joint1", i)) /\ Fin(w'.st[Key("joint1", i)])) =>
         w'.st[Key("joint10", i)] = (IF i = "position" THEN 1024 ELSE 0) - 2 * w'.st[Key("joint1", i)]]_vars
\* dynamics: the velocity is what the position does
Consistent ==
  [][(Read /\ ~w.c.dis /\ w.c.dyn /\ Has("joint1/position") /\ Has("joint1/velocity") /\ last'.q > 0
      /\ (w.mode["joint1"] = "position" => Fin(Get(w.cm, "joint1/position")))) =>
      w'.st["joint1/position"] - w.st["joint1/position"] = TimesDt(w'.st["joint1/velocity"], last'.q)]_vars
\* nothing moves without a finite command and without motion
Still ==
  [][(Read /\ (\A k \in DOMAIN w.cm : w.cm[k] = NaN \/ k \in BoolKeys(w.c))
      /\ Has("joint1/position") /\ Get(w.st, "joint1/velocity") \in {0, NaN} /\ Get(w.st, "joint1/acceleration") \in {0, NaN})
      => w'.st["joint1/position"] = w.st["joint1/position"]]_vars
\* a fault is not passed over
Faults == [][(w.life = "active" /\ last'.op = "READ" /\ ~w.c.dis /\ \E k \in DOMAIN w.st \cap DOMAIN w.cm : k \notin BoolKeys(w.c) /\ IsInf(w.cm[k]) /\ k \notin {Key("joint1", i) : i \in PVA}) => w'.life # "active"]_vars
Values == \A k \in DOMAIN w.st : Fin(w.st[k]) \/ w.st[k] = NaN
Modes == \A c \in Confs : c.dyn => ~Accepts(c, {"joint1/velocity", "joint1/acceleration"}) \/ ~({"velocity", "acceleration"} \subseteq Range(c.joints[1].cmd))
ASSUME Modes
=============================================================================

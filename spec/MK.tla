--------------------------------- MODULE MK ---------------------------------
(* The mock hardware (mock_components/GenericSystem) as a user sees it: what  *)
(* a read() does to the state interfaces given the command interfaces and the *)
(* description, and which mode changes are accepted.                          *)
(* Values are integers in units of 1/4096; booleans are 0 or 4096.            *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 2000000001
Inf == 2000000002
NInf == 2000000003
Special(v) == v \in {NaN, Inf, NInf}
IsInf(v) == v \in {Inf, NInf}
Fin(v) == ~Special(v)
One == 4096
Boolean == {"brake", "on"}
Std == <<"position", "velocity", "acceleration">>
PVA == {"position", "velocity", "acceleration"}
Range(s) == {s[i] : i \in DOMAIN s}
Key(n, i) == n \o "/" \o i
(* arithmetic with "not a number"; q is the period in quarters of a second *)
Add(a, b) == IF Fin(a) /\ Fin(b) THEN a + b ELSE NaN
Sub(a, b) == IF Fin(a) /\ Fin(b) THEN a - b ELSE NaN
Mul(a, n) == IF Fin(a) THEN a * n ELSE NaN
TimesDt(a, q) == IF Fin(a) THEN (a * q) \div 4 ELSE NaN
\* a \div b is only meant for finite results: dividing by no time gives nothing that can be stored
PerDt(a, q) == IF q = 0 \/ ~Fin(a) THEN NaN ELSE (a * 4) \div q

(* the description:                                                          *)
(*   dyn, dis, ms, mg : BOOLEAN, off : offset, cust : interface that gets it *)
(*   joints : Seq([n, cmd : Seq(STRING), st : Seq([n, iv]), of, mul, mo])    *)
(*   sens : Seq([n, st]), gpios : Seq([n, cmd, st])                          *)
StKeys(parts) == UNION {{Key(p.n, i.n) : i \in Range(p.st)} : p \in Range(parts)}
CmKeys(parts) == UNION {{Key(p.n, i) : i \in Range(p.cmd)} : p \in Range(parts)}
Initial(c) == LET all == {<<p, i>> \in UNION {{<<p, i>> : i \in Range(p.st)} : p \in Range(c.joints) \cup Range(c.sens) \cup Range(c.gpios)} : TRUE} IN
              [k \in {Key(x[1].n, x[2].n) : x \in all} |->
                LET x == CHOOSE x \in all : Key(x[1].n, x[2].n) = k IN
                IF x[2].n \in Boolean /\ x[2].iv = NaN THEN 0 ELSE IF x[2].n \in Boolean THEN IF x[2].iv = 0 THEN 0 ELSE One ELSE x[2].iv]
Listed(c) == CmKeys(c.joints) \cup CmKeys(c.gpios)
\* commands that exist only because the parameters ask for them
Faked(c) == ((IF c.ms THEN StKeys(c.sens) ELSE {}) \cup (IF c.mg THEN StKeys(c.gpios) ELSE {})) \ Listed(c)
Keys(c) == Listed(c) \cup Faked(c)
BoolKeys(c) == UNION {{Key(p.n, b) : b \in Boolean} : p \in Range(c.joints) \cup Range(c.sens) \cup Range(c.gpios)}
InitialCmd(c) == [k \in Keys(c) |-> IF k \in Faked(c) THEN Initial(c)[k] ELSE IF k \in BoolKeys(c) THEN 0 ELSE NaN]
OwnOffset(c) == IF c.cust = "" THEN c.off ELSE 0

World0 == [ready |-> FALSE, st |-> [k \in {} |-> 0], cm |-> [k \in {} |-> 0], mode |-> [j \in {} |-> ""], fresh |-> TRUE, life |-> ""]
New(c) == [ready |-> TRUE, c |-> c, st |-> Initial(c), cm |-> InitialCmd(c), mode |-> [j \in {p.n : p \in Range(c.joints)} |-> "position"], fresh |-> TRUE, life |-> "unconfigured"]
(* configuring: joint states without an initial value become 0; the offset is put on once *)
Configure(x) ==
  LET js == StKeys(x.c.joints) \ BoolKeys(x.c) IN
  [x EXCEPT !.st = [k \in DOMAIN x.st |->
                     IF k \notin js THEN x.st[k]
                     ELSE (IF x.st[k] = NaN THEN 0 ELSE x.st[k])
                          + (IF x.fresh /\ k \in {Key(p.n, "position") : p \in Range(x.c.joints)} THEN OwnOffset(x.c) ELSE 0)],
            !.mode = [j \in DOMAIN x.mode |-> "position"],
            !.fresh = FALSE]

(* reading *)
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE NaN
Put(f, k, v) == IF k \in DOMAIN f /\ Fin(v) THEN [f EXCEPT ![k] = v] ELSE f
Move(x, j, q) ==   \* [position, velocity, acceleration] of a joint after a period, when dynamics are calculated
  LET n == j.n
      p0 == Get(x.st, Key(n, "position")) v0 == Get(x.st, Key(n, "velocity")) a0 == Get(x.st, Key(n, "acceleration"))
      pc == Get(x.cm, Key(n, "position")) vc == Get(x.cm, Key(n, "velocity")) ac == Get(x.cm, Key(n, "acceleration"))
      Or0(v) == IF Fin(v) THEN v ELSE 0 IN
  CASE x.mode[n] = "acceleration" ->
         LET a == IF Fin(ac) THEN ac ELSE a0
             v == Or0(v0) + Or0(TimesDt(a, q)) IN
         [p |-> Add(p0, TimesDt(v, q)), v |-> v, a |-> a]
    [] x.mode[n] = "velocity" ->
         LET v == IF Fin(vc) THEN vc ELSE v0
             a == IF Fin(vc) THEN PerDt(Sub(v, Or0(v0)), q) ELSE a0 IN
         [p |-> Add(p0, Or0(TimesDt(v, q))), v |-> v, a |-> a]
    [] OTHER ->
         IF ~Fin(pc) THEN [p |-> p0, v |-> v0, a |-> a0]
         ELSE LET p == pc + OwnOffset(x.c)
                  v == PerDt(Sub(p, p0), q)
                  a == PerDt(Sub(v, Or0(v0)), q) IN
              [p |-> p, v |-> v, a |-> a]
Moved(x, q) ==
  LET f[k \in 0..Len(x.c.joints)] ==
        IF k = 0 THEN x.st
        ELSE LET n == x.c.joints[k].n m == Move(x, x.c.joints[k], q) IN
             Put(Put(Put(f[k - 1], Key(n, "position"), m.p), Key(n, "velocity"), m.v), Key(n, "acceleration"), m.a)
  IN f[Len(x.c.joints)]
Positions(x) == {Key(p.n, "position") : p \in Range(x.c.joints)}
Straight(x) == [k \in DOMAIN x.st |-> IF k \in Positions(x) /\ k \in DOMAIN x.cm /\ Fin(x.cm[k]) THEN x.cm[k] + OwnOffset(x.c) ELSE x.st[k]]
\* the states that follow the command of the same name as it is
Skipped(c) == IF c.dyn THEN PVA ELSE {"position"}
JointMirror(c) == UNION {{Key(p.n, i.n) : i \in {i \in Range(p.st) : i.n \notin Skipped(c)}} : p \in Range(c.joints)}
Mirror(c) == (JointMirror(c) \cup (IF c.ms THEN StKeys(c.sens) ELSE {}) \cup StKeys(c.gpios)) \cap Keys(c)
Mirrored(x, f) == [k \in DOMAIN f |-> IF k \in Mirror(x.c) /\ Fin(x.cm[k]) THEN x.cm[k] ELSE f[k]]
Custom(x, f) ==
  IF x.c.cust = "" THEN f
  ELSE LET who(k) == {p \in Range(x.c.joints) : /\ k = Key(p.n, x.c.cust) /\ x.c.cust \in {i.n : i \in Range(p.st)} /\ x.c.cust \notin Skipped(x.c)
                                               /\ Key(p.n, "position") \in DOMAIN x.cm /\ Fin(x.cm[Key(p.n, "position")])} IN
       [k \in DOMAIN f |-> IF who(k) # {} THEN x.cm[Key((CHOOSE p \in who(k) : TRUE).n, "position")] + x.c.off ELSE f[k]]
Mimicked(x, g) ==
  LET f[k \in 0..Len(x.c.joints)] ==
        IF k = 0 THEN g
        ELSE LET j == x.c.joints[k]
                 Fol(h, i, o) == LET a == Key(j.n, i) b == Key(j.of, i) IN
                                 IF a \in DOMAIN h /\ b \in DOMAIN h THEN [h EXCEPT ![a] = Add(o, Mul(h[b], j.mul))] ELSE h IN
             IF j.of = "" THEN f[k - 1]
             ELSE Fol(Fol(Fol(f[k - 1], "position", j.mo), "velocity", 0), "acceleration", 0)
  IN f[Len(x.c.joints)]
Faulty(x) == ~x.c.dis /\ \E k \in Mirror(x.c) : IsInf(x.cm[k])
After(x, q) == IF x.c.dis THEN x.st ELSE Mimicked(x, Custom(x, Mirrored(x, IF x.c.dyn THEN Moved(x, q) ELSE Straight(x))))

(* changing modes *)
Started(c, ks, j) == {i \in PVA : Key(j.n, i) \in ks}
Of(c, ks, j) == {k \in ks : k \in {Key(j.n, i) : i \in Range(j.cmd)}}
Accepts(c, ks) == c.dyn => \A j \in Range(c.joints) : Of(c, ks, j) # {} => Cardinality(Started(c, ks, j)) = 1
\* the last of the names given for a joint decides
ModeOf(x, start, j) ==
  LET ix == {i \in DOMAIN start : start[i] \in {Key(j, m) : m \in PVA}} IN
  IF ix = {} THEN x.mode[j]
  ELSE LET i == CHOOSE i \in ix : \A h \in ix : h <= i IN CHOOSE m \in PVA : start[i] = Key(j, m)

(* operations; the life cycle and the results of LIFE belong to the resource manager *)
Alive(x) == x.ready /\ x.life \in {"inactive", "active"}
Res(x, o) ==
  CASE o.op = "READ" -> IF Alive(x) /\ Faulty(x) THEN "ERROR" ELSE "OK"
    [] o.op = "WRITE" -> "OK"
    [] o.op = "PREP" -> IF o.start = <<>> /\ o.stop = <<>> THEN "OK" ELSE IF Accepts(x.c, Range(o.start)) THEN "OK" ELSE "NO"
    [] OTHER -> "OK"
Do(x, o) ==
  CASE o.op = "NEW" -> New(o)
    [] o.op = "SETC" -> IF o.k \in DOMAIN x.cm THEN [x EXCEPT !.cm[o.k] = o.v] ELSE x
    [] o.op = "LIFE" -> IF x.life = "unconfigured" /\ o.to \in {"inactive", "active"} THEN [Configure(x) EXCEPT !.life = o.to] ELSE [x EXCEPT !.life = o.to]
    [] o.op = "READ" -> IF ~Alive(x) THEN x ELSE [x EXCEPT !.st = After(x, o.q), !.life = IF Faulty(x) THEN "finalized" ELSE x.life]
    [] o.op = "PERF" -> IF x.c.dyn THEN [x EXCEPT !.mode = [j \in DOMAIN x.mode |-> ModeOf(x, o.start, j)]] ELSE x
    [] OTHER -> x
=============================================================================

-------------------------------- MODULE SP --------------------------------
(* The command line tools of the controller manager: the spawner, which      *)
(* loads, configures and activates controllers and takes them down when it   *)
(* is told to stop; the unspawner; and the hardware spawner.  Each is a       *)
(* process making one request after another of a controller manager that      *)
(* other processes use too; a request may be refused, never answered,         *)
(* answered after its effect has been lost sight of, or interrupted.          *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Uniq(_), Join(_), Flat(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET f == Uniq(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF x \in Range(f) THEN f ELSE Append(f, x)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN "'" \o s[1] \o "'" ELSE "'" \o s[1] \o "', " \o Join(Tail(s))
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Show(s) == "[" \o Join(s) \o "]"
Filter(s, P(_)) == LET f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE IF P(s[k]) THEN Append(f[k - 1], s[k]) ELSE f[k - 1] IN f[Len(s)]
Drop(f, n) == [k \in DOMAIN f \ {n} |-> f[k]]
Put(f, S, v) == [k \in DOMAIN f \cup S |-> IF k \in S THEN v ELSE f[k]]
\* ---- the parameter files: whether one concerns a controller, and what it says
Owns(f, c, ns) ==
  CASE f \in {"c1.yaml", "c2.yaml", "c3.yaml"} -> f = c \o ".yaml" /\ ns = "/"
    [] f = "wild.yaml" -> TRUE
    [] f = "ns.yaml" -> (c = "c1" /\ ns = "/ns") \/ c = "c2"
    [] OTHER -> FALSE
TypeIn(f, c) == CASE f = "wild.yaml" -> "pkg/any" [] f = "ns.yaml" -> (IF c = "c1" THEN "pkg/ns1" ELSE "pkg/any2") [] OTHER -> "pkg/" \o c
BackIn(f, c) == IF f \in {"wild.yaml", "ns.yaml"} THEN "" ELSE "['fb_" \o c \o "']"
FilesOf(o, i) ==
  LET own == IF o.rpf # "" /\ o.rpf \notin Range(o.ctls[i].pf) THEN Append(o.ctls[i].pf, o.rpf) ELSE o.ctls[i].pf
      it(f) == Owns(f, o.ctls[i].n, o.ns) IN
  Uniq(Filter(own, it))
\* the first of the files that says something about it decides
TypeOf(fs, c) == TypeIn(fs[1], c)
BackOf(fs, c) == LET says(f) == BackIn(f, c) # "" s == Filter(fs, says) IN IF s = <<>> THEN "" ELSE BackIn(s[1], c)
\* parameters given before a controller is loaded, in order
Pars(o, i) ==
  LET c == o.ctls[i] fs == FilesOf(o, i)
      one(n, v) == <<[k |-> "par." \o c.n \o "." \o n, v |-> v]>> IN
     (IF c.ra = <<>> THEN <<>> ELSE one("node_options_args", Show(Flat(c.ra))))
  \o (IF fs = <<>> THEN <<>> ELSE one("params_file", Show(fs)) \o one("type", TypeOf(fs, c.n))
        \o (IF BackOf(fs, c.n) = "" THEN <<>> ELSE one("fallback_controllers", BackOf(fs, c.n))))
CmName(o) ==
  LET base == IF o.cm # "" THEN o.cm ELSE IF o.op = "UNSPAWN" THEN "/controller_manager" ELSE "controller_manager" IN
  IF base \in {"/controller_manager", "/abs/cm"} THEN base ELSE IF o.ns = "/" THEN "/" \o base ELSE o.ns \o "/" \o base
\* ---- the controller manager: w = [ctl, hw, par]
Has(w, c) == c \in DOMAIN w.ctl
At(w, c) == IF Has(w, c) THEN w.ctl[c] ELSE "-"
World0 == [ctl |-> [c \in {} |-> ""], hw |-> [c \in {} |-> ""], par |-> <<>>]
\* what a request does to it and whether it is granted
Grants(w, q) ==
  CASE q.kind = "load" -> ~Has(w, q.c)
    [] q.kind \in {"conf", "unl"} -> At(w, q.c) \in {"U", "I"}
    [] q.kind = "switch" -> (\A c \in Range(q.call.act) : At(w, c) = "I") /\ \A c \in Range(q.call.dea) : At(w, c) = "A"
    [] q.kind = "hw" -> q.c \in DOMAIN w.hw
    [] OTHER -> TRUE
Serve(w, q) ==
  IF ~Grants(w, q) THEN w ELSE
  CASE q.kind = "load" -> [w EXCEPT !.ctl = Put(@, {q.c}, "U")]
    [] q.kind = "conf" -> [w EXCEPT !.ctl = Put(@, {q.c}, "I")]
    [] q.kind = "unl" -> [w EXCEPT !.ctl = Drop(@, q.c)]
    [] q.kind = "switch" -> [w EXCEPT !.ctl = Put(Put(@, Range(q.call.act), "A"), Range(q.call.dea), "I")]
    [] q.kind = "hw" -> [w EXCEPT !.hw[q.c] = q.call.v[2]]
    [] q.kind = "par" -> [w EXCEPT !.par = Append(@, <<q.call.n, q.call.v>>)]
    [] OTHER -> w
\* ---- a process: o what it was asked, pc and i where it is
Proc(o) == [o |-> o, pc |-> "start", i |-> 1, p |-> 1, calls |-> <<>>, req |-> <<>>, col |-> <<>>, down |-> <<>>, res |-> -1, bad |-> FALSE,
            lock |-> FALSE, waited |-> FALSE, int |-> FALSE]
End(m, r) == [m EXCEPT !.pc = "end", !.res = r, !.lock = FALSE]
Lone(pc, m) == [kind |-> pc, k |-> pc, c |-> "", call |-> [k |-> pc, cm |-> CmName(m.o)]]
Plain(kind, c, m) == [kind |-> kind, k |-> kind \o "." \o c, c |-> c, call |-> [k |-> kind \o "." \o c, cm |-> CmName(m.o)]]
Switch(m, act, dea, asap) ==
  LET s == IF act # <<>> THEN act ELSE dea
      k == (IF act # <<>> THEN "act." ELSE "dea.") \o (IF Len(s) = 1 THEN s[1] ELSE "*") IN
  [kind |-> "switch", k |-> k, c |-> "", call |-> [k |-> k, cm |-> CmName(m.o), act |-> act, dea |-> dea, strict |-> 2, asap |-> asap, to |-> m.o.to]]
Asap(m) == m.o.asap = "yes"
Cur(m) == m.o.ctls[m.i]
\* the request a process is about to make
Request(m) ==
  CASE m.pc = "list" -> Lone("list", m)
    [] m.pc = "par" -> LET p == Pars(m.o, m.i)[m.p] IN
         [kind |-> "par", k |-> p.k, c |-> Cur(m).n, call |-> [k |-> p.k, cm |-> CmName(m.o), v |-> p.v, n |-> p.k]]
    [] m.pc \in {"load", "conf"} -> Plain(m.pc, Cur(m).n, m)
    [] m.pc = "act" -> Switch(m, <<Cur(m).n>>, <<>>, Asap(m))
    [] m.pc = "group" -> Switch(m, m.col, <<>>, Asap(m))
    [] m.pc = "downlist" -> Lone("list", m)
    [] m.pc = "downdea" -> Switch(m, <<>>, m.down, Asap(m))
    [] m.pc = "downunl" -> Plain("unl", m.req[m.i], m)
    [] m.pc = "udea" -> Switch(m, <<>>, m.o.names, TRUE)
    [] m.pc = "uunl" -> Plain("unl", m.o.names[m.i], m)
    [] m.pc = "hwlist" -> Lone("hwlist", m)
    [] m.pc = "hwset" -> LET q == Plain("hw", m.o.names[m.i], m) IN
         [q EXCEPT !.call = [k |-> q.k, cm |-> CmName(m.o), v |-> IF m.o.what = "activate" THEN <<3, "active">> ELSE <<2, "inactive">>]]
Asking == {"list", "par", "load", "conf", "act", "group", "downlist", "downdea", "downunl", "udea", "uunl", "hwlist", "hwset"}
\* the service a request goes to, for those whose absence a process gives up on
Service(m) == IF m.pc \in {"list", "downlist"} THEN "list" ELSE IF m.pc \in {"load", "conf", "hwlist"} THEN m.pc ELSE IF m.pc = "downunl" THEN "unl" ELSE ""
\* after the named controllers are dealt with
Rest(m) == IF m.o.unl THEN [m EXCEPT !.pc = "wait", !.lock = FALSE, !.waited = TRUE] ELSE End(m, 0)
NextCtl(m) ==
  IF m.i < Len(m.o.ctls) THEN [m EXCEPT !.i = @ + 1, !.pc = "list"]
  ELSE IF m.o.group /\ m.col # <<>> THEN [m EXCEPT !.pc = "group", !.req = m.col] ELSE Rest(m)
Interrupted(m) ==
  LET n == [m EXCEPT !.int = TRUE] IN
  IF m.o.op # "SPAWN" \/ ~m.o.unl \/ m.req = <<>> THEN End(n, 0) ELSE [n EXCEPT !.pc = "downlist"]
NextUnl(m, last) == IF m.i < Len(last) THEN [m EXCEPT !.i = @ + 1] ELSE End(m, IF m.bad THEN 1 ELSE 0)
\* what follows an answer; w is the controller manager as it answered
Answer(w, m, ok) ==
  CASE m.pc = "list" -> IF Has(w, Cur(m).n) THEN (IF Cur(m).lo THEN NextCtl(m) ELSE [m EXCEPT !.pc = "conf"])
                        ELSE IF Pars(m.o, m.i) # <<>> THEN [m EXCEPT !.pc = "par", !.p = 1] ELSE [m EXCEPT !.pc = "load"]
    [] m.pc = "par" -> IF ~ok THEN End(m, 1) ELSE IF m.p < Len(Pars(m.o, m.i)) THEN [m EXCEPT !.p = @ + 1] ELSE [m EXCEPT !.pc = "load"]
    [] m.pc = "load" -> IF ~ok THEN End(m, 1) ELSE IF Cur(m).lo THEN NextCtl(m) ELSE [m EXCEPT !.pc = "conf"]
    [] m.pc = "conf" -> IF ~ok THEN End(m, 1) ELSE IF Cur(m).ina THEN NextCtl(m)
                        ELSE IF m.o.group THEN NextCtl([m EXCEPT !.col = Append(@, Cur(m).n)])
                        ELSE [m EXCEPT !.pc = "act", !.req = Append(@, Cur(m).n)]
    [] m.pc = "act" -> IF ~ok THEN End(m, 1) ELSE NextCtl(m)
    [] m.pc = "group" -> IF ~ok THEN End(m, 1) ELSE Rest(m)
    [] m.pc = "downlist" -> LET up(c) == At(w, c) = "A" d == Filter(m.req, up) IN [m EXCEPT !.down = d, !.i = 1, !.pc = IF d = <<>> THEN "downunl" ELSE "downdea"]
    [] m.pc = "downdea" -> IF ~ok THEN End(m, 1) ELSE [m EXCEPT !.pc = "downunl"]
    [] m.pc = "downunl" -> NextUnl([m EXCEPT !.bad = @ \/ ~ok], m.req)
    [] m.pc = "udea" -> [m EXCEPT !.pc = "uunl"]
    [] m.pc = "uunl" -> IF ~ok THEN End(m, 1) ELSE NextUnl(m, m.o.names)
    [] m.pc = "hwlist" -> IF m.o.names[m.i] \in DOMAIN w.hw THEN [m EXCEPT !.pc = "hwset"] ELSE NextUnl(m, m.o.names)
    [] m.pc = "hwset" -> NextUnl([m EXCEPT !.pc = "hwlist"], m.o.names)
\* moves that ask nothing of the controller manager
Missing(o) == (o.rpf = "missing.yaml") \/ \E i \in DOMAIN o.ctls : "missing.yaml" \in Range(o.ctls[i].pf)
Move(m) ==
  CASE m.pc = "start" -> IF m.o.op = "UNSPAWN" THEN [m EXCEPT !.pc = "udea"] ELSE IF m.o.op = "HWSPAWN" THEN [m EXCEPT !.pc = "hwlist"]
                         ELSE IF Missing(m.o) THEN End(m, 1) ELSE [m EXCEPT !.pc = "lock"]
    [] m.pc = "lock" -> IF m.o.lockf >= 5 THEN End(m, 1) ELSE [m EXCEPT !.pc = "list", !.lock = TRUE]
    [] m.pc = "wait" -> Interrupted(m)
\* a request with its outcome: the controller manager and the process afterwards
Tell(m, q) == IF q.kind \in {"list", "hwlist"} THEN m ELSE [m EXCEPT !.calls = Append(@, [call |-> q.call, lock |-> m.lock])]
Step(w, m, out) ==
  LET q == Request(m) n == Tell(m, q) IN
  CASE out = "gone" -> <<w, End(m, 1)>>
    [] out = "lost" -> <<w, End(n, 1)>>
    [] out = "int0" -> <<w, Interrupted(n)>>
    [] out = "int1" -> <<Serve(w, q), Interrupted(n)>>
    [] out = "no" -> <<w, Answer(w, n, FALSE)>>
    [] out = "late" -> LET v == Serve(w, q) IN <<Serve(v, q), Answer(Serve(v, q), n, Grants(v, q))>>
    [] OTHER -> <<Serve(w, q), Answer(Serve(w, q), n, Grants(w, q))>>
\* ---- one process from beginning to end, with the outcomes of a script: those of a key happen the first time, "lost" and "gone" always
Outcome(m, used) ==
  LET fs == m.o.faults
      q == Request(m)
      g == {i \in DOMAIN fs : fs[i].f = "gone" /\ Service(m) # "" /\ fs[i].k = "gone." \o Service(m)}
      h == {i \in DOMAIN fs : fs[i].k = q.k} IN
  IF g # {} THEN "gone" ELSE IF h = {} THEN "ok" ELSE LET f == fs[CHOOSE i \in h : TRUE].f IN IF f = "lost" \/ q.k \notin used THEN f ELSE "ok"
RECURSIVE Whole(_, _, _)
Whole(w, m, used) ==
  IF m.pc = "end" THEN <<w, m>>
  ELSE IF m.pc \notin Asking THEN Whole(w, Move(m), used)
  ELSE LET s == Step(w, m, Outcome(m, used)) IN Whole(s[1], s[2], used \cup {Request(m).k})
\* ---- scripts
Ext(w, o) ==
  LET gone == {c \in DOMAIN o.ctl : o.ctl[c] = "-"} IN
  [w EXCEPT !.ctl = [c \in (DOMAIN @ \cup DOMAIN o.ctl) \ gone |-> IF c \in DOMAIN o.ctl THEN o.ctl[c] ELSE @[c]],
            !.hw = [h \in Range(o.hw) |-> "unconfigured"]]
Run(w, o) == Whole([w EXCEPT !.par = <<>>], Proc(o), {})
Do(w, o) == CASE o.op = "RESET" -> World0 [] o.op = "EXT" -> Ext(w, o) [] OTHER -> Run(w, o)[1]
=============================================================================

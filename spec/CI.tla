-------------------------------- MODULE CI --------------------------------
(* One controller by itself: lifecycle, update rate, chained mode, exported *)
(* interfaces, loans.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Uncf == 1  Inact == 2  Act == 3  Final == 4
World0 == [chn |-> TRUE, cm |-> 0, id |-> 0, rate |-> 0, par |-> 0, chd |-> FALSE, refs |-> <<>>, stas |-> <<>>, loans |-> 0]
\* the rate a controller gets that asks for a rate
Achievable(cm, r) == IF cm % r = 0 THEN r ELSE cm \div ((2 * cm + r) \div (2 * r))
Rate(cm, r, old) == IF r <= 0 \/ cm = 0 THEN old ELSE IF r > cm THEN cm ELSE Achievable(cm, r)
\* where a transition ends; o: result of the callback, e: whether error handling succeeds
End(from, ok, fail, o, e) == CASE o = "OK" -> ok [] o = "F" -> fail [] OTHER -> IF e THEN Uncf ELSE Final
Starts(op, id) == CASE op = "CONF" -> id = Uncf [] op = "ACT" -> id = Inact [] op = "DEA" -> id = Act [] op = "CLE" -> id = Inact
                    [] op = "SHUT" -> id \in {Uncf, Inact, Act} [] OTHER -> FALSE
\* a negative rate is refused before anything is done
Runs(w, o) == Starts(o.op, w.id) /\ ~(o.op = "CONF" /\ w.par < 0)
Target(w, o) ==
  CASE o.op = "CONF" -> End(Uncf, Inact, Uncf, o.o, o.e)
    [] o.op = "ACT" -> End(Inact, Act, Inact, o.o, o.e)
    [] o.op = "DEA" -> End(Act, Inact, Act, o.o, o.e)
    [] o.op = "CLE" -> End(Inact, Uncf, Inact, o.o, o.e)
    [] o.op = "SHUT" -> End(w.id, Final, Final, o.o, o.e)
\* the callbacks a transition runs
Cbs(w, o) == IF ~Runs(w, o) THEN <<>> ELSE <<o.op>> \o (IF o.o \in {"E", "X"} THEN <<"error">> ELSE <<>>)
Drops(w, o) == Runs(w, o) /\ (o.op = "SHUT" \/ o.o \in {"E", "X"})
Name(h) == h.p \o "/" \o h.n
\* own prefix: the name of the controller, or longer
Own == {"ctl", "ctl_x"}
Valid(all, old, size) ==
  /\ size = Len(old)
  /\ \A k \in DOMAIN all : all[k].p \in Own
  /\ \A a, b \in DOMAIN all : a # b => Name(all[a]) # Name(all[b])
ExportOk(w, o) == w.chn /\ Valid(o.old \o o.new, o.old, o.size)
Update(w, o) ==
  IF ~w.chn THEN [calls |-> <<"wr">>, res |-> o.wr]
  ELSE IF w.chd THEN [calls |-> <<"wr">>, res |-> o.wr]
  ELSE IF o.sub # "OK" THEN [calls |-> <<"sub">>, res |-> o.sub]
  ELSE [calls |-> <<"sub", "wr">>, res |-> o.wr]
ChainOk(w, o) == w.chn /\ w.id # Act /\ o.o
Res(w, o) ==
  CASE o.op = "NEW" -> IF o.o = "OK" THEN "OK" ELSE "ERROR"
    [] o.op = "CHAIN" -> IF ChainOk(w, o) THEN "OK" ELSE "REFUSED"
    [] o.op = "UPD" -> Update(w, o).res
    [] o.op \in {"EXPR", "EXPS"} -> IF ~w.chn \/ ExportOk(w, o) THEN "OK" ELSE "THROW"
    [] OTHER -> "OK"
Calls(w, o) ==
  CASE o.op \in {"CONF", "ACT", "DEA", "CLE", "SHUT"} -> Cbs(w, o)
    [] o.op = "UPD" -> Update(w, o).calls
    [] o.op = "CHAIN" -> IF w.chn /\ w.id # Act THEN <<"chain">> ELSE <<>>
    [] OTHER -> <<>>
Exported(o) == [k \in 1..Len(o.old \o o.new) |-> [n |-> Name((o.old \o o.new)[k]), v |-> o.v]]
Do(w, o) ==
  CASE o.op = "NEW" -> [World0 EXCEPT !.chn = o.chn, !.cm = o.cm, !.rate = o.cm, !.par = o.cm, !.id = IF o.o = "OK" THEN Uncf ELSE Final]
    [] o.op = "PAR" -> [w EXCEPT !.par = o.r]
    [] o.op \in {"CONF", "ACT", "DEA", "CLE", "SHUT"} ->
         IF ~Runs(w, o) THEN w
         ELSE [w EXCEPT !.id = Target(w, o), !.loans = IF Drops(w, o) THEN 0 ELSE @,
                        !.rate = IF o.op = "CONF" THEN Rate(w.cm, w.par, @) ELSE @]
    [] o.op = "CHAIN" -> IF ChainOk(w, o) THEN [w EXCEPT !.chd = o.b] ELSE w
    [] o.op = "EXPR" -> [w EXCEPT !.refs = IF ExportOk(w, o) THEN Exported(o) ELSE <<>>]
    [] o.op = "EXPS" -> [w EXCEPT !.stas = IF ExportOk(w, o) THEN Exported(o) ELSE <<>>]
    [] o.op \in {"WREF", "CREF"} -> IF o.k > Len(w.refs) THEN w ELSE [w EXCEPT !.refs[o.k].v = o.v]
    [] o.op = "WSTA" -> IF o.k > Len(w.stas) THEN w ELSE [w EXCEPT !.stas[o.k].v = o.v]
    [] o.op = "LEND" -> [w EXCEPT !.loans = o.n]
    [] o.op = "RELEASE" -> [w EXCEPT !.loans = 0]
    [] OTHER -> w
=============================================================================

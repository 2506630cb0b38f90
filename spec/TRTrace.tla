------------------------------ MODULE TRTrace ------------------------------
(* Validates recorded transmissions against TR.                             *)
EXTENDS TR, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Starts == {k \in DOMAIN Log : Log[k].op = "RESET"}
VARIABLES l, w, bad
vars == <<l, w, bad>>
\* the transmission with the roles in the order of the names instead of the description
ByName(x) == [x EXCEPT !.jn = <<>>, !.an = <<>>]
Bad(e, x, y) ==
  IF e.res # Res(x, e) THEN {"T02 " \o Res(x, e)}
  ELSE IF e.jv = y.jv /\ e.av = y.av THEN {}
  ELSE IF e.op = "CONF" THEN {"T02 values changed"}
  ELSE LET z == Do(ByName(x), e) IN
       IF Do(ByName(x), e) # ByName(y) /\ e.jv = z.jv /\ e.av = z.av THEN {"T02 ROLES-BY-NAME"}
       ELSE IF x.jn = <<>> /\ x.an = <<>> THEN {"T01"} ELSE {"T01", "T02"}
\* after the known deviation the recorded values are gone on from
Go(x, e) == [x EXCEPT !.jv = e.jv, !.av = e.av]
Init == \E k \in Starts : l = k /\ w = World0 /\ bad = {}
Next ==
  /\ bad \subseteq {"T02 ROLES-BY-NAME"} /\ l < Len(Log) /\ Log[l + 1].op # "RESET"
  /\ l' = l + 1
  /\ \E y \in {Do(w, Log[l + 1])} :
       /\ bad' = Bad(Log[l + 1], w, y)
       /\ w' = IF bad' = {"T02 ROLES-BY-NAME"} THEN Go(y, Log[l + 1]) ELSE y
  /\ bad' # {} => PrintT(<<"BAD", ToString(bad'), l + 1>>)
Spec == Init /\ [][Next]_vars
View == <<l, bad>>
=============================================================================

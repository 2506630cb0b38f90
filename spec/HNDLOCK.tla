------------------------------ MODULE HNDLOCK ------------------------------
(* The lock protocol of a handle.  A value has two halves, which are read   *)
(* and written one after the other.                                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Rounds, Tries
VARIABLES half, writer, readers, pc, got, tries, round, written
vars == <<half, writer, readers, pc, got, tries, round, written>>
Kinds == {"tset", "wset", "lset", "tget", "wget"}
\* got: the two halves read (or to be written), 0 when nothing
Init ==
  /\ half = <<0, 0>> /\ writer = 0 /\ readers = {} /\ written = {0}
  /\ pc = [t \in Threads |-> "idle"] /\ got = [t \in Threads |-> <<0, 0>>]
  /\ tries = [t \in Threads |-> 0] /\ round = [t \in Threads |-> 0]
To(t, s) == pc' = [pc EXCEPT ![t] = s]
Begin(t) == pc[t] = "idle" /\ round[t] < Rounds /\ \E k \in Kinds :
  /\ To(t, k) /\ round' = [round EXCEPT ![t] = @ + 1]
  /\ got' = [got EXCEPT ![t] = IF k \in {"tset", "wset", "lset"} THEN <<10 * t + round[t], 10 * t + round[t]>> ELSE <<0, 0>>]
  /\ tries' = [tries EXCEPT ![t] = IF k = "lset" THEN Tries ELSE 1] /\ UNCHANGED <<half, writer, readers, written>>
FreeW == writer = 0 /\ readers = {}
FreeR == writer = 0
LockW(t) == pc[t] \in {"tset", "wset", "lset"} /\ FreeW /\ writer' = t /\ To(t, "w1") /\ UNCHANGED <<half, readers, got, tries, round, written>>
LockR(t) == pc[t] \in {"tget", "wget"} /\ FreeR /\ readers' = readers \cup {t} /\ To(t, "r1") /\ UNCHANGED <<half, writer, got, tries, round, written>>
\* without the lock a try ends, the loan tries again
Fail(t) ==
  /\ (pc[t] \in {"tset", "lset"} /\ ~FreeW) \/ (pc[t] = "tget" /\ ~FreeR)
  /\ tries' = [tries EXCEPT ![t] = @ - 1]
  /\ To(t, IF tries[t] = 1 THEN "idle" ELSE pc[t])
  /\ UNCHANGED <<half, writer, readers, got, round, written>>
W1(t) == pc[t] = "w1" /\ half' = <<got[t][1], half[2]>> /\ To(t, "w2") /\ UNCHANGED <<writer, readers, got, tries, round, written>>
W2(t) == pc[t] = "w2" /\ half' = <<half[1], got[t][2]>> /\ To(t, "w3") /\ written' = written \cup {got[t][1]} /\ UNCHANGED <<writer, readers, got, tries, round>>
W3(t) == pc[t] = "w3" /\ writer' = 0 /\ To(t, "idle") /\ UNCHANGED <<half, readers, got, tries, round, written>>
R1(t) == pc[t] = "r1" /\ got' = [got EXCEPT ![t] = <<half[1], 0>>] /\ To(t, "r2") /\ UNCHANGED <<half, writer, readers, tries, round, written>>
R2(t) == pc[t] = "r2" /\ got' = [got EXCEPT ![t] = <<@[1], half[2]>>] /\ To(t, "r3") /\ UNCHANGED <<half, writer, readers, tries, round, written>>
R3(t) == pc[t] = "r3" /\ readers' = readers \ {t} /\ To(t, "idle") /\ UNCHANGED <<half, writer, got, tries, round, written>>
Step(t) == Begin(t) \/ LockW(t) \/ LockR(t) \/ Fail(t) \/ W1(t) \/ W2(t) \/ W3(t) \/ R1(t) \/ R2(t) \/ R3(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(W1(t) \/ W2(t) \/ W3(t) \/ R1(t) \/ R2(t) \/ R3(t) \/ Fail(t)) /\ SF_vars(LockW(t)) /\ SF_vars(LockR(t))

\* what was read is something that was written as a whole
Whole == \A t \in Threads : pc[t] = "r3" => got[t][1] = got[t][2] /\ got[t][1] \in written
Exclusive == writer # 0 => readers = {} /\ \A t \in Threads : pc[t] \in {"w1", "w2", "w3"} <=> writer = t
\* nothing is lost: while nobody writes, the value is the whole of one write
Kept == writer = 0 => half[1] = half[2] /\ half[1] \in written
Ends == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================

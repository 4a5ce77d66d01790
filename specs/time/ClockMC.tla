------------------------------ MODULE ClockMC ------------------------------
(* Model checking: no timestamp is ever handed out twice, a call that starts after another returned gets a later one. *)
EXTENDS Clock
CONSTANTS TS, MaxT, MaxN
VARIABLES got, n, floor
\* got: timestamps returned; floor[i]: the greatest timestamp returned by anyone when thread i's call started
mvars == <<cvars, got, n, floor>>
Max(S) == IF S = {} THEN -1 ELSE CHOOSE m \in S : \A y \in S : y <= m
Init == last = 0 /\ clk = 0 /\ ops = {} /\ got = {} /\ n = 0 /\ floor = [i \in TS |-> -1]
Next == \/ \E t \in 0..MaxT : t # clk /\ Set(t) /\ UNCHANGED <<got, n, floor>>
        \/ \E i \in TS : n < MaxN /\ Call(i) /\ n' = n + 1 /\ floor' = [floor EXCEPT ![i] = Max(got)] /\ UNCHANGED got
        \/ Hidden /\ UNCHANGED <<got, n, floor>>
        \/ \E i \in TS, f \in 0..MaxT + MaxN : Ret(i, f) /\ got' = got \cup {f} /\ UNCHANGED <<n, floor>>
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Hidden /\ UNCHANGED <<got, n, floor>>) /\ WF_mvars(\E i \in TS, f \in 0..MaxT + MaxN : Ret(i, f) /\ got' = got \cup {f} /\ UNCHANGED <<n, floor>>)
NeverRepeats == Cardinality(got) + Cardinality(ops) = n
Later == \A x \in ops : x.done => x.f > floor[x.id]
Distinct == \A x, y \in ops : x.done /\ y.done /\ x.f = y.f => x = y
NotYetReturned == \A x \in ops : x.done => x.f \notin got
Returns == \A i \in TS : (\E x \in ops : x.id = i) ~> (\A x \in ops : x.id # i)
=============================================================================

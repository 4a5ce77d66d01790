------------------------------ MODULE MmpqMC ------------------------------
EXTENDS Mmpq
CONSTANTS TS, MaxPub, MaxT
VARIABLES got, cnt
vars == <<mvars, got, cnt>>
InitMC == idx = 0 /\ head = -1 /\ q = {} /\ cons = <<>> /\ ops = {} /\ phase = "live" /\ got = <<>> /\ cnt = 0
MH == ((\E x \in ops : Publish(x, x.ts) \/ Move(x, x.ts) \/ Die(x)) \/ Take \/ Free) /\ UNCHANGED <<got, cnt>>
MIn == cons # <<>> /\ In(cons[1].v, cons[1].idx, cons[1].us, cons[1].li, cons[1].lu) /\ got' = Append(got, cons[1]) /\ UNCHANGED cnt
MOut == cons # <<>> /\ Out(cons[1].v) /\ UNCHANGED <<got, cnt>>
Quiet == \A x \in ops : x.o # "destroy"
MCall == \/ \E i \in TS, u \in 0..MaxT, o \in {"pub", "head"} : phase = "live" /\ Quiet /\ cnt < MaxPub /\ Call(i, o, cnt, u, 0) /\ cnt' = cnt + 1 /\ UNCHANGED got
         \/ ops = {} /\ cnt = MaxPub /\ phase = "live" /\ Call(99, "destroy", 0, 0, 0) /\ UNCHANGED <<got, cnt>>
MRet == (\E x \in ops : Ret(x.id, x.f, x.idx)) /\ UNCHANGED <<got, cnt>>
Spec == InitMC /\ [][MH \/ MIn \/ MOut \/ MCall \/ MRet]_vars /\ WF_vars(MH) /\ WF_vars(MIn) /\ WF_vars(MOut) /\ WF_vars(MRet)
Indexes == {got[k].idx : k \in DOMAIN got}
OnceEach == Cardinality(Indexes) = Len(got) /\ \A m \in q : m.idx \notin Indexes
NotEarly == \A k \in DOMAIN got : got[k].us <= head /\ got[k].us <= got[k].lu
NothingLost == Len(got) + Cardinality(q) + (IF cons # <<>> /\ cons[1].s = "taken" THEN 1 ELSE 0) = idx
AllDue == phase = "dead" => Due = {}
\* a message overtaken by a later one was published after that one was taken: its index exceeds what was known then
Ordered == \A a, b \in DOMAIN got : a < b /\ Before(got[b], got[a]) => got[b].idx > got[a].li \/ got[b].us > got[a].lu
EveryoneReturns == \A i \in TS : (\E x \in ops : x.id = i) ~> (\A x \in ops : x.id # i)
Delivered == \A m \in 1..MaxPub : (\E d \in Due : d.idx = m) ~> (m \in Indexes)
=============================================================================

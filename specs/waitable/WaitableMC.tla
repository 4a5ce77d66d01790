----------------------------- MODULE WaitableMC -----------------------------
EXTENDS Waitable
CONSTANTS TS, MaxV
\* thread 0 is the owner; the others work only while they hold their client
Work(i) == /\ i \in clients /\ i # 0
           /\ \/ (val < MaxV /\ Call(i, "inc", 0, 0, 0))
              \/ \E v \in 1..MaxV : Call(i, "wait", 0, v, 0)
              \/ \E e \in 0..1 : (val < MaxV /\ Call(i, "pot", e, 0, 0))
              \/ Call(i, "ok", 0, 0, 0) \/ Call(i, "leave", 0, i, 0)
Calls == (\E i \in TS : Work(i)) \/ (phase = "live" /\ Call(0, "destroy", 0, 0, 0))
Rets == \E i \in TS \cup {0}, f \in 0..MaxV+1 : Ret(i, f, 0)
InitMC == val = 0 /\ ops = {} /\ phase = "live" /\ clients = TS
Spec == InitMC /\ [][Calls \/ Hidden \/ Rets]_wvars /\ WF_wvars(Hidden) /\ WF_wvars(Rets) /\ \A i \in TS : SF_wvars(Call(i, "leave", 0, i, 0))
Waiting(i, v) == \E x \in ops : x.id = i /\ x.o = "wait" /\ x.v = v
WokenUp == \A i \in TS : \A v \in 1..MaxV : (Waiting(i, v) /\ val >= v) ~> ~Waiting(i, v)
Ends == (phase = "flagged") ~> (phase = "dead")
Bound == val <= MaxV + 1
=============================================================================

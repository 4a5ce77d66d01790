------------------------------- MODULE MmqMC -------------------------------
(* Every accepted message is consumed exactly once, in the order of indexes; nobody waits forever.  got: messages consumed;
   acc: messages accepted, in order.                                                                                        *)
EXTENDS Mmq
CONSTANTS TS, MaxPub, Sizes
VARIABLES got, acc, cnt
vars == <<mvars, got, acc, cnt>>
InitMC == n \in Sizes /\ drop \in BOOLEAN /\ idx = 0 /\ us = -1 /\ q = <<>> /\ cons = <<>> /\ ops = {} /\ phase = "live"
          /\ got = <<>> /\ acc = <<>> /\ cnt = 0
MH == Hidden /\ acc' = (IF Len(q') > Len(q) THEN Append(acc, q'[Len(q')]) ELSE acc) /\ UNCHANGED <<got, cnt>>
MIn == cons # <<>> /\ In(cons[1].v, cons[1].idx, cons[1].us, cons[1].li, cons[1].lu) /\ got' = Append(got, cons[1]) /\ UNCHANGED <<acc, cnt>>
MOut == cons # <<>> /\ Out(cons[1].v) /\ UNCHANGED <<got, acc, cnt>>
MCall == \/ \E i \in TS, u \in 1..MaxPub : phase = "live" /\ cnt < MaxPub /\ (\A x \in ops : x.o # "destroy")
                /\ Call(i, "pub", cnt, u, u, 0) /\ cnt' = cnt + 1 /\ UNCHANGED <<got, acc>>
         \/ ops = {} /\ cnt = MaxPub /\ phase = "live" /\ Call(99, "destroy", 0, 0, 0, 0) /\ UNCHANGED <<got, acc, cnt>>
MRet == (\E x \in ops : Ret(x.id, x.f, x.idx, x.us)) /\ UNCHANGED <<got, acc, cnt>>
Spec == InitMC /\ [][MH \/ MIn \/ MOut \/ MCall \/ MRet]_vars /\ WF_vars(MH) /\ WF_vars(MIn) /\ WF_vars(MOut) /\ WF_vars(MRet)
InOrder == /\ Len(got) <= Len(acc) /\ \A k \in 1..Len(got) : got[k].v = acc[k].v /\ got[k].idx = k /\ got[k].us = acc[k].us
           /\ \A k \in 2..Len(acc) : acc[k].us > acc[k - 1].us
           /\ \A k \in 1..Len(got) : got[k].li >= got[k].idx
NothingLost == phase = "dead" => Len(got) = Len(acc)
ToldTheTruth == \A x \in ops : x.o = "pub" /\ x.f = 1 => acc[x.idx].v = x.v /\ acc[x.idx].us = x.us
Bounded == Len(q) + Len(cons) <= n
EveryoneReturns == \A i \in TS : (\E x \in ops : x.id = i) ~> (\A x \in ops : x.id # i)
Ends == (\E x \in ops : x.o = "destroy") ~> phase = "dead"
=============================================================================

------------------------------ MODULE RestTrace ------------------------------
EXTENDS Rest, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* (see harness/storage_common.h)
Own(c, v) == IF c = "Du" THEN <<v, 0>> ELSE IF c \in {"Moo", "Ouu", "Noo"} THEN <<v \div 3, v % 3>> ELSE <<>>
VARIABLES tid, l
vars == <<tid, l, rvars>>
T == Traces[tid].ev
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ RestInit
Consume(e) ==
  \/ e.k = "req" /\ Serve(e.q, e.j) /\ Shown(e.q, e.r) /\ AllShown(<<ent', lm'>>, e.d)
  \/ e.k = "reopen" /\ Demote /\ AllShown(<<ent', lm'>>, e.d)
  \/ e.k = "master" /\ Promote /\ AllShown(<<ent', lm'>>, e.d)
  \/ e.k = "down" /\ TakeDown
TraceNext == /\ l <= Len(T)
             /\ Consume(T[l])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

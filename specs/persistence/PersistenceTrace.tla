-------------------------- MODULE PersistenceTrace --------------------------
EXTENDS Persistence, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = InitSt
TraceNext == LET T == Traces[tid].ev
             IN /\ l <= Len(T)
                /\ LET a == Apply(st, T[l].op) IN a.res = T[l].res /\ st' = a.st
                /\ l' = l + 1 /\ UNCHANGED tid
                /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
TypeInv == StrictlyIncreasing(st) /\ HeadBound(st)
=============================================================================

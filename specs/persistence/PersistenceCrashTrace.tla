----------------------- MODULE PersistenceCrashTrace ------------------------
EXTENDS PersistenceCrash, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = InitSt
TraceNext == LET T == Traces[tid].ev
             IN /\ l <= Len(T)
                /\ Accept(st, T[l].op, T[l].res) /\ st' = After(st, T[l].op)
                /\ l' = l + 1 /\ UNCHANGED tid
                /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, st>>
=============================================================================

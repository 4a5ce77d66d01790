---------------------------- MODULE WaitableTrace ----------------------------
EXTENDS Waitable, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ val = 0 /\ ops = {} /\ phase = "live"
             /\ clients = {Traces[tid].prog.clients[k] : k \in 1..Len(Traces[tid].prog.clients)}
Ev(e) == IF e.k = "c" THEN Call(e.i, e.o, e.e, e.v, e.t) ELSE e.x = 1 /\ Ret(e.i, e.f, e.t)
TraceNext == LET T == Traces[tid].ev IN
             \/ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<wvars, tid, l>>
=============================================================================

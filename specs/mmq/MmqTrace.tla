------------------------------ MODULE MmqTrace ------------------------------
EXTENDS Mmq, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ idx = 0 /\ us = -1 /\ q = <<>> /\ cons = <<>> /\ ops = {} /\ phase = "live"
             /\ n = Traces[tid].prog.n /\ drop = (Traces[tid].prog.q = "drop")
\* the clock: "now" lies between the call and the return (one microsecond more per timestamp taken so far at most)
Ev(e) == CASE e.k = "c" -> Call(e.i, e.o, e.v, e.ts, e.g, e.t)
           [] e.k = "r" -> Ret(e.i, e.f, e.idx, e.us) /\ \A x \in ops : x.id = e.i /\ x.ts = Default /\ x.f = 1 => x.us >= x.t /\ x.us <= e.t + 100
           [] e.k = "in" -> In(e.v, e.idx, e.us, e.lidx, e.lus)
           [] e.k = "out" -> Out(e.v)
TraceNext == LET T == Traces[tid].ev IN
             \/ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, tid, l>>
=============================================================================

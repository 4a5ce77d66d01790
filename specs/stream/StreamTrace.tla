----------------------------- MODULE StreamTrace -----------------------------
EXTENDS Stream, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
P(t) == Traces[t].prog
InitLog(t) == [i \in 1..Len(P(t).init) |-> [v |-> P(t).init[i][1], us |-> P(t).init[i][2]]]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ log = InitLog(tid)
             /\ head = (IF P(tid).inithead > 0 THEN P(tid).inithead ELSE Last) /\ Init0
D(e) == IF e.o = "sub" THEN [begin |-> P(tid).subs[e.h + 1].begin, from |-> IF P(tid).subs[e.h + 1].from > 0 THEN P(tid).subs[e.h + 1].from ELSE None,
                             flt |-> P(tid).subs[e.h + 1].mode = "t"] ELSE <<>>
Ev(e) == CASE e.k = "c" -> Call(e.i, e.o, e.h, e.v, e.ts, e.g, e.t, D(e))
           [] e.k = "r" -> Ret(e.i, e.f, e.idx, e.us) /\ \A x \in ops : x.id = e.i =>
                              /\ (x.o = "iter" => x.aux = e.log)
                              /\ (x.ts = Default /\ x.o \in {"pub", "hpub"} /\ x.f = 1 => x.us >= x.t /\ x.us <= e.t + 100)
           [] e.k = "en" -> Entry(e.i, e.v, e.idx, e.us, e.lidx, e.lus)
           [] e.k = "hd" -> HeadIs(e.i, e.us)
           [] e.k = "ter" -> Terminate(e.i)
           [] e.k = "ex" -> Answer(e.i, e.r)
           [] e.k = "done" -> Done(e.i)
TraceNext == LET T == Traces[tid].ev IN
             \/ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
=============================================================================

----------------------------- MODULE ClockTrace -----------------------------
EXTENDS Clock, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ last = 0 /\ clk = 0 /\ ops = {}
(* "exact": the clock moves only by "clk" events.  Otherwise it runs by itself (and sleeping takes timestamps too): the call
   event carries the result, attached afterwards; it must exceed `last` at some moment of the call, and lie between the time
   at the call and the time at the return, give or take one microsecond per call made.                                     *)
Exact == Traces[tid].exact = 1
Ev(e) == IF e.k = "clk" THEN Set(e.v)
         ELSE IF e.o = "now" THEN
           IF e.k = "c" THEN /\ (Exact \/ e.g >= e.t) /\ \A x \in ops : x.id # e.i
                             /\ ops' = ops \cup {[id |-> e.i, r |-> IF Exact THEN {clk} ELSE {e.g}, done |-> FALSE, f |-> 0]}
                             /\ UNCHANGED <<last, clk>>
           ELSE Ret(e.i, e.f) /\ (Exact \/ \E x \in ops : x.id = e.i /\ e.f <= e.t + Traces[tid].slack)
         ELSE UNCHANGED cvars /\ (e.k = "r" => Exact \/ e.t + Traces[tid].slack >= e.v)
TraceNext == LET T == Traces[tid].ev IN
             \/ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tid, l>>
=============================================================================

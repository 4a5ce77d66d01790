------------------------------ MODULE LinesTrace ------------------------------
EXTENDS Lines, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init(Traces[tid].f)
News == SubSeq(out', Len(out) + 1, Len(out'))
\* What a consumer of C strings can see of a line.
RECURSIVE CStr(_)
CStr(s) == IF s = <<>> \/ s[1] = 0 THEN <<>> ELSE <<s[1]>> \o CStr(Tail(s))
See(ls) == IF Traces[tid].c = 1 THEN [i \in 1..Len(ls) |-> CStr(ls[i])] ELSE ls
Consume(e) ==
  CASE e.k = "feed" -> Feed(e.s) /\ e.out = See(News) /\ e.thrown = (state = "open" /\ state' = "failed")
    [] e.k = "end" -> End /\ e.out = See(News)
    [] e.k = "late" -> state = "ended" /\ e.refused /\ UNCHANGED lvars      \* used after Done(): refused
TraceNext == /\ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, tid, l>>
=============================================================================

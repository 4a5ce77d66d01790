----------------------------- MODULE PubsubTrace -----------------------------
(* A recorded connection: {"lines": the body of the response at the end, "now": when the request may have been served (what matters of it), ev: pub/head/did, get, term, kill, quiet}.
   What the connection has got at a moment when nothing was going on is exactly what is due.                                                   *)
EXTENDS Pubsub, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<pvars, tid, l>>
T == Traces[tid]
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ Init0
Ev == T.ev[l]
Seen == /\ c.code = Ev.code /\ Ev.end = (IF c.st = "done" THEN 1 ELSE 0) /\ (c.code \in {204, 404, 405} \/ c.out = Ev.lines)
        /\ (c.st # "none" /\ c.code = 200 => Ev.size >= c.s0 /\ Ev.size <= Len(log))
        /\ (c.code = 200 /\ (c.q.size \/ c.q.m = "HEAD") => Ev.size = c.s0)
Step == /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
        /\ CASE Ev.k \in {"pub", "head"} -> Call([o |-> Ev.k, us |-> Ev.us, j |-> Ev.j])
             [] Ev.k = "did" -> Ret
             [] Ev.k = "get" -> Send(Ev.q)
             [] Ev.k = "term" -> req' = "term" /\ UNCHANGED <<log, head, heads, w, c>>
             [] Ev.k = "kill" -> req' = "kill" /\ UNCHANGED <<log, head, heads, w, c>>
             [] Ev.k = "quiet" -> Settled /\ (c.st = "none" \/ Seen) /\ UNCHANGED pvars
Hidden == /\ \/ Commit \/ \E t \in 1..Len(T.now) : Serve(T.now[t])
             \/ Entry \/ (\E us \in heads : HeadIs(us)) \/ Terminate \/ Destroyed
          /\ (c'.code = 200 => Prefix(c'.out, T.lines))
          /\ UNCHANGED <<tid, l>>
TraceNext == (Step /\ (l = Len(T.ev) => PrintT(<<"ACC", tid>>))) \/ (l <= Len(T.ev) /\ Hidden)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

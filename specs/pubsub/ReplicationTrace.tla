-------------------------- MODULE ReplicationTrace --------------------------
(* A recorded run: {"ev": ...}.  pub/head/did: the master's publisher; start/stop/stopped; req: a subscription is served (say: by lines of the driver's);
   rx/rxd: something reaches the follower's replicator, and what came of it; quiet: nothing goes on: both logs.
   A connection may break at any time; then the next req follows.                                                                            *)
EXTENDS Replication, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<rvars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ Init0 /\ f = F0
Req == LET x == [Fresh EXCEPT !.st = "sent", !.q = Query(Ev.i, Ev.since)] IN
       /\ f.on /\ f.w = None /\ f' = [f EXCEPT !.k = 0] /\ Ev.i = f.next /\ Ev.since = f.from /\ Ev.chk = T.chk
       /\ (c.st = "raw" => RawOver \/ T.breaks)
       /\ c' = IF Ev.raw THEN [say |-> Ev.say] @@ [x EXCEPT !.st = "raw"] ELSE x
       /\ UNCHANGED <<log, head, heads, w, req>>
At == /\ w = None /\ Ev.m = log /\ Ev.f = f.log /\ Ev.mh = head /\ Ev.fh = f.head
      /\ (f.on => /\ f.w = None /\ c.st = "open" /\ f.k = Len(c.out) /\ InSync /\ c.next = Len(log) /\ ~(head > Last /\ CanHead(head)))
Step == /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
        /\ CASE Ev.k \in {"pub", "head"} -> Call([o |-> Ev.k, us |-> Ev.us, j |-> Ev.j]) /\ UNCHANGED f
             [] Ev.k = "did" -> Ret /\ UNCHANGED f
             [] Ev.k = "start" -> Start(Ev.from)
             [] Ev.k = "stop" -> UNCHANGED rvars
             [] Ev.k = "stopped" -> Stop
             [] Ev.k = "req" -> Req
             [] Ev.k = "rx" -> Rx(Ev.o, Ev.i, Ev.us, Ev.j)
             [] Ev.k = "rxd" -> FRet(Ev.ok = 1)
             [] Ev.k = "quiet" -> At /\ UNCHANGED rvars
             [] Ev.k = "end" -> Ev.f = f.log /\ UNCHANGED rvars
\* a line is sent no earlier than it has to
Hidden == /\ l <= Len(T.ev) /\ UNCHANGED <<tid, l>>
          /\ \/ Commit /\ UNCHANGED f
             \/ c.st = "sent" /\ Ev.k \in {"rx", "quiet"} /\ Serve(0) /\ UNCHANGED f
             \/ Ev.k = "rx" /\ f.k = Len(c.out) /\ f.w = None /\ (IF Ev.o = "pub" THEN Entry ELSE HeadIs(Ev.us)) /\ UNCHANGED f
             \/ Ev.k = "quiet" /\ c.st = "open" /\ ~c.serving /\ f.k = Len(c.out) /\ HeadIs(head) /\ c'.out = c.out /\ UNCHANGED f
             \/ FCommit
TraceNext == ((Step /\ (l = Len(T.ev) => PrintT(<<"ACC", tid>>))) \/ Hidden) /\ Faithful'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

------------------------------ MODULE FlipTrace ------------------------------
(* A recorded run: {"ev": ...}.  call/ret: what the program does;  quiet: nothing goes on: what every node is and has.  At first all the nodes are masters, not exposed. *)
EXTENDS Flip, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<fvars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ns = [n \in Nodes |-> Fresh("master", 0)] /\ p = [t \in Threads |-> None] /\ acc = <<>>
AtRest == /\ Settled
      /\ \A n \in Nodes : LET x == ns[n] e == Ev.ns[n] IN
           /\ (x.role = "master") = (e.master = 1) /\ x.log = e.log /\ x.head = e.head
           /\ (Lossy \/ x.cb = e.cb)
Step == /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
        /\ CASE Ev.k = "call" -> Call(Ev.t, Ev.x)
             [] Ev.k = "ret" -> Ret(Ev.t, Ev.r)
             [] Ev.k = "quiet" -> AtRest /\ UNCHANGED fvars
Op(t) == p[t] # None /\ p[t].s # "ret" /\
         CASE p[t].o \in {"pub", "head"} -> Publish(t)
           [] p[t].o = "expose" -> Expose(t)
           [] p[t].o = "unexpose" -> Unexpose(t)
           [] p[t].o = "follow" -> Follow(t)
           [] p[t].o = "flip" -> IF p[t].s = "new" THEN Flip(t) ELSE Taken(t)
           [] p[t].o = "ask" -> Raw(t)
\* what happens is only looked at when it matters
Hidden == /\ l <= Len(T.ev) /\ UNCHANGED <<tid, l>>
          /\ \/ Ev.k = "ret" /\ \E t \in Threads : Op(t)
             \/ \E n \in Nodes : Sync(n)
             \/ Restore
TraceNext == (Step /\ (l = Len(T.ev) => PrintT(<<"ACC", tid>>))) \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

------------------------------ MODULE Waitable ------------------------------
(* WaitableAtomic (bricks/sync/waitable_atomic.h), plain and intrusive.

   The value is an integer.  Every operation takes effect in one hidden atomic step between its call and its return.
   Intrusive: the destructor raises a flag which aborts all waits, then waits until no client is registered.         *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES val, ops, phase, clients
wvars == <<val, ops, phase, clients>>
InitW == val = 0 /\ ops = {} /\ phase = "live" /\ clients = {}
Flag == phase \in {"flagged", "dead"}
\* an operation in progress: id (thread), o, e/v parameters, t: time of the call, f: result, fl: the flag was up at the call
Call(id, o, e, v, t) == /\ phase # "dead" /\ \A x \in ops : x.id # id
                        /\ ops' = ops \cup {[id |-> id, o |-> o, e |-> e, v |-> v, t |-> t, done |-> FALSE, f |-> 0, fl |-> Flag]}
                        /\ UNCHANGED <<val, phase, clients>>
Lin(x, new, f) == /\ ~x.done /\ val' = new /\ ops' = (ops \ {x}) \cup {[x EXCEPT !.done = TRUE, !.f = f]} /\ UNCHANGED <<phase>>
LinOp(x) == CASE x.o = "inc"    -> Lin(x, val + 1, val + 1) /\ UNCHANGED clients
              [] x.o = "set"    -> Lin(x, x.v, 0) /\ UNCHANGED clients
              [] x.o = "setif"  -> Lin(x, IF val = x.e THEN x.v ELSE val, 0) /\ UNCHANGED clients
              [] x.o = "pot"    -> (IF val = x.e THEN Lin(x, val + 1, 1) ELSE Lin(x, val, 0)) /\ UNCHANGED clients
              [] x.o = "get"    -> Lin(x, val, val) /\ UNCHANGED clients
              [] x.o = "wait"   -> ((Flag /\ Lin(x, val, 0)) \/ (~Flag /\ val >= x.v /\ Lin(x, val, 1))) /\ UNCHANGED clients
              [] x.o = "waitfor" -> (IF val >= x.v THEN Lin(x, val, 1) ELSE Lin(x, val, 0)) /\ UNCHANGED clients
              [] x.o = "reg"    -> /\ Lin(x, val, IF Flag THEN 0 ELSE 1)
                                   /\ clients' = IF Flag THEN clients ELSE clients \cup {x.v}
              [] x.o = "leave"  -> Lin(x, val, 0) /\ clients' = clients \ {x.v}
              [] x.o = "ok"     -> Lin(x, val, IF Flag THEN 0 ELSE 1) /\ UNCHANGED clients
              [] x.o = "destroy" -> FALSE
Raise(x) == x.o = "destroy" /\ phase = "live" /\ phase' = "flagged" /\ UNCHANGED <<val, ops, clients>>
Die(x)   == x.o = "destroy" /\ phase = "flagged" /\ clients = {} /\ phase' = "dead" /\ UNCHANGED <<val, ops, clients>>
Hidden == \E x \in ops : LinOp(x) \/ Raise(x) \/ Die(x)
\* A return with result f at time t; a timed wait may only fail after its time (v: threshold, e: duration).
Ret(id, f, t) == \E x \in ops : /\ x.id = id /\ ops' = ops \ {x} /\ UNCHANGED <<val, phase, clients>>
                                /\ IF x.o = "destroy" THEN phase = "dead"
                                   ELSE x.done /\ x.f = f /\ (x.o = "waitfor" /\ f = 0 => t >= x.t + x.e)
DeadIsQuiet == phase = "dead" => \A x \in ops : x.o \in {"leave", "destroy"}
ClientsKeepAlive == clients # {} => phase # "dead"
=============================================================================

-------------------------------- MODULE RipTrace --------------------------------
(* A recorded run of a flow: {"flow": {"route","into","out"}, "us": all the times given, "ev": [...]}.  "us" of anything but emit, and lo, hi are from the start of the run. *)
EXTENDS Rip, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Range(s) == {s[i] : i \in DOMAIN s}
VARIABLES tid, l
T == Traces[tid]
Ev == T.ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ RipInit(Traces[tid].flow)
Step == /\ l <= Len(T.ev) /\ l' = l + 1 /\ tid' = tid
        /\ CASE Ev.k = "call" -> Call(Ev.t, Ev.b, Ev.o, Ev.y, Ev.id, Ev.lo, Ev.hi, Ev.us)
             [] Ev.k = "ret" -> Ret(Ev.t, Ev.ref)
             [] Ev.k = "f" -> Ev.ok = 1 /\ In(Ev.b, Ev.id, Ev.y)
             [] Ev.k = "g" -> Done(Ev.b, Ev.id)
             [] Ev.k = "born" -> Born(Ev.b)
             [] Ev.k = "gone" -> Gone(Ev.b)
             [] Ev.k = "join" -> UNCHANGED rvars
             [] Ev.k = "joined" -> Over /\ UNCHANGED rvars
             [] OTHER -> FALSE
\* The time of an emitted message only matters in relation to the given times (T.us), and the earliest leaves most for the others.
Times(x) == LET a == Max2(x.lo, clk) + 1 IN IF x.o = "emit" THEN {t \in {a} \cup {u \in Range(T.us) : u >= a} \cup {u + 1 : u \in {v \in Range(T.us) : v >= a}} : t < x.hi} ELSE {x.us}
\* What is hidden happens when it comes to matter: before a call returns, or a message is seen; only what is scheduled can get ahead of what is due.
Hidden == /\ l <= Len(T.ev) /\ Ev.k \in {"ret", "f"} /\ UNCHANGED <<tid, l>>
          /\ \/ \E x \in ops : x.st = "new" /\ \E t \in Times(x) : Accept(x, t)
             \/ \E e \in 1..NEdges : ((IF Ev.k = "f" THEN Into(Ev.b) = e ELSE FALSE) \/ (\E x \in ops : x.st = "new" /\ x.o = "sched" /\ x.e = e)) /\ Take(e)
TraceNext == (Step /\ (l = Len(T.ev) => PrintT(<<"ACC", tid>>))) \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, tid, l>>
================================================================================

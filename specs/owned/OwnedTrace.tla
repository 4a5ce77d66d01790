----------------------------- MODULE OwnedTrace -----------------------------
EXTENDS Owned, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ InitO
Ev(e) == CASE e.k = "borrow" -> Call("borrow", e.h, e.g, e.cb) [] e.k = "borrowed" -> RetBorrow(e.h)
           [] e.k = "move" -> Call("move", e.h, e.g, e.cb)     [] e.k = "moved" -> RetMove(e.h)
           [] e.k = "drop" -> Call("drop", e.h, "", FALSE)     [] e.k = "dropped" -> RetDrop(e.h)
           [] e.k \in {"use", "excl"} -> Call("use", e.h, "", FALSE)
           [] e.k \in {"used", "excled"} -> RetUse(e.h, e.ok)
           [] e.k = "valid" -> Call("valid", e.h, "", FALSE)   [] e.k = "validret" -> RetValid(e.h, e.v)
           [] e.k = "count" -> Call("count", e.h, "", FALSE)   [] e.k = "countret" -> RetCount(e.h, e.v)
           [] e.k = "destroy" -> DestroyCall [] e.k = "destroyed" -> Destroyed
           [] e.k = "cb" -> Callback(e.h) [] e.k = "dtor" -> Dtor
           [] OTHER -> FALSE
TraceNext == LET T == Traces[tid].ev IN
             \/ /\ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
                /\ (l = Len(T) => PrintT(<<"ACC", tid>>) /\ (late' => PrintT(<<"TAG", "late", tid>>)))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, tid, l>>
=============================================================================

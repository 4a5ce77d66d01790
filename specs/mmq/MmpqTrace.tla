----------------------------- MODULE MmpqTrace -----------------------------
(* The clock stands still in these runs, so a default timestamp is one more than the one before (`clk`).                    *)
EXTENDS Mmpq, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, clk
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ clk = 0 /\ idx = 0 /\ head = -1 /\ q = {} /\ cons = <<>> /\ ops = {} /\ phase = "live"
Ev(e) == CASE e.k = "c" -> Call(e.i, e.o, e.v, e.ts, e.t)
           [] e.k = "r" -> Ret(e.i, e.f, e.idx)
           [] e.k = "in" -> In(e.v, e.idx, e.us, e.lidx, e.lus)
           [] e.k = "out" -> Out(e.v)
Hidden == \/ (\E x \in ops : Die(x)) /\ UNCHANGED clk
          \/ Take /\ UNCHANGED clk
          \/ Free /\ UNCHANGED clk
          \/ \E x \in ops : LET u == IF x.ts = Default THEN clk + 1 ELSE x.ts IN
                (Publish(x, u) \/ Move(x, u)) /\ clk' = IF x.ts = Default THEN clk + 1 ELSE clk
TraceNext == LET T == Traces[tid].ev IN
             \/ l <= Len(T) /\ Ev(T[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, clk>> /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ l <= Len(T) /\ Hidden /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, tid, l, clk>>
=============================================================================

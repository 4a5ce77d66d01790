------------------------------- MODULE Clock -------------------------------
(* current::time::Now(): one shared counter of microseconds above an arbitrary wall clock (bricks/time/chrono.h).

   last    the greatest timestamp handed out so far
   clk     the wall clock now; the environment sets it to anything at any moment (Set), or it runs forward (Tick)
   ops     calls in progress: r is the set of wall clock values a call may have read (all it had since the call)
   A call takes effect in one hidden step: it hands out the clock reading if that is ahead of `last`, else last + 1.       *)
EXTENDS Integers, FiniteSets, TLC
VARIABLES last, clk, ops
cvars == <<last, clk, ops>>
See(t) == {[x EXCEPT !.r = @ \cup {t}] : x \in ops}
Set(t)  == clk' = t /\ ops' = See(t) /\ UNCHANGED last
Call(id) == (\A x \in ops : x.id # id) /\ ops' = ops \cup {[id |-> id, r |-> {clk}, done |-> FALSE, f |-> 0]} /\ UNCHANGED <<last, clk>>
Stamp(x, t) == IF t > last THEN t ELSE last + 1
Take(x, t) == /\ ~x.done /\ t \in x.r /\ last' = Stamp(x, t)
              /\ ops' = (ops \ {x}) \cup {[x EXCEPT !.done = TRUE, !.f = Stamp(x, t)]} /\ UNCHANGED clk
Hidden == \E x \in ops : \E t \in x.r : Take(x, t)
Ret(id, f) == \E x \in ops : x.id = id /\ x.done /\ x.f = f /\ ops' = ops \ {x} /\ UNCHANGED <<last, clk>>
=============================================================================

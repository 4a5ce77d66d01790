-------------------------------- MODULE Mmq --------------------------------
(* MMQ: a ring of N slots between publishers and one consumer thread (blocks/mmq/mmq.h).

   idx, us   index and timestamp of the message accepted last
   q         slots in use, oldest first: v message, idx, us, id the publisher which is still filling it (-1: ready)
   cons      the consumer: <<>> idle, or one record: the slot being exported and the snapshot (idx, us) taken with it,
             s = "taken" / "in" (the callback runs) / "out"
   ops       calls in progress; done with f = 1 accepted (as idx, us), 0 refused: the ring is full (only if Drop) or goes away, 2 refused: timestamp
   The ring holds at most N messages including the one being exported.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Default == -1      \* the timestamp meaning "now"
VARIABLES n, drop, idx, us, q, cons, ops, phase
mvars == <<n, drop, idx, us, q, cons, ops, phase>>
\* g: the timestamp the call gets if accepted (its own, or what the clock said), t: time of the call
Call(id, o, v, ts, g, t) == /\ phase # "dead" /\ \A x \in ops : x.id # id
                      /\ ops' = ops \cup {[id |-> id, o |-> o, v |-> v, ts |-> ts, g |-> g, t |-> t, s |-> "new", f |-> 0, idx |-> 0, us |-> 0]}
                      /\ UNCHANGED <<n, drop, idx, us, q, cons, phase>>
Upd(x, y) == ops' = (ops \ {x}) \cup {y}
Full == Len(q) + Len(cons) >= n
Accept(x) == /\ x.o = "pub" /\ x.s = "new" /\ ~Full /\ x.g > us
             /\ idx' = idx + 1 /\ us' = x.g /\ q' = Append(q, [v |-> x.v, idx |-> idx + 1, us |-> x.g, id |-> x.id])
             /\ Upd(x, [x EXCEPT !.s = "fill", !.f = 1, !.idx = idx + 1, !.us = x.g]) /\ UNCHANGED <<n, drop, cons, phase>>
Commit(x) == /\ x.o = "pub" /\ x.s = "fill" /\ q' = [k \in DOMAIN q |-> IF q[k].id = x.id THEN [q[k] EXCEPT !.id = -1] ELSE q[k]]
             /\ Upd(x, [x EXCEPT !.s = "done"]) /\ UNCHANGED <<n, drop, idx, us, cons, phase>>
Refuse(x) == /\ x.o = "pub" /\ x.s = "new"
             /\ \/ drop /\ Full /\ Upd(x, [x EXCEPT !.s = "done"])
                \/ (\E y \in ops : y.o = "destroy") /\ Upd(x, [x EXCEPT !.s = "done"])
                \/ (IF x.ts = Default THEN x.t ELSE x.ts) <= us /\ Upd(x, [x EXCEPT !.s = "done", !.f = 2])
             /\ UNCHANGED <<n, drop, idx, us, q, cons, phase>>
Take == /\ q # <<>> /\ cons = <<>> /\ q[1].id = -1 /\ phase # "dead"
        /\ cons' = <<[v |-> q[1].v, idx |-> q[1].idx, us |-> q[1].us, li |-> idx, lu |-> us, s |-> "taken"]>>
        /\ q' = Tail(q) /\ UNCHANGED <<n, drop, idx, us, ops, phase>>
Free == cons # <<>> /\ cons[1].s = "out" /\ cons' = <<>> /\ UNCHANGED <<n, drop, idx, us, q, ops, phase>>
Die(x) == x.o = "destroy" /\ x.s = "new" /\ q = <<>> /\ cons = <<>> /\ phase' = "dead" /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
          /\ UNCHANGED <<n, drop, idx, us, q, cons>>
Hidden == (\E x \in ops : Accept(x) \/ Commit(x) \/ Refuse(x) \/ Die(x)) \/ Take \/ Free
In(v, i, u, li, lu) == /\ cons # <<>> /\ cons[1].s = "taken" /\ cons[1].v = v /\ cons[1].idx = i /\ cons[1].us = u
                       /\ cons[1].li = li /\ cons[1].lu = lu /\ cons' = <<[cons[1] EXCEPT !.s = "in"]>>
                       /\ UNCHANGED <<n, drop, idx, us, q, ops, phase>>
Out(v) == /\ cons # <<>> /\ cons[1].s = "in" /\ cons[1].v = v /\ cons' = <<[cons[1] EXCEPT !.s = "out"]>>
          /\ UNCHANGED <<n, drop, idx, us, q, ops, phase>>
Ret(id, f, i, u) == \E x \in ops : /\ x.id = id /\ x.s = "done" /\ x.f = f /\ x.idx = i /\ x.us = u
                                   /\ ops' = ops \ {x} /\ UNCHANGED <<n, drop, idx, us, q, cons, phase>>
=============================================================================

-------------------------------- MODULE Mmpq --------------------------------
(* MMPQ: messages wait until the head reaches their timestamp, then go to the consumer by (timestamp, index)
   (blocks/mmq/mmpq.h).  A message may be published for the past of the head; it is then due at once.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Default == -1      \* the timestamp meaning "now"
VARIABLES idx, head, q, cons, ops, phase
mvars == <<idx, head, q, cons, ops, phase>>
Call(id, o, v, ts, t) == /\ phase # "dead" /\ \A x \in ops : x.id # id
                         /\ ops' = ops \cup {[id |-> id, o |-> o, v |-> v, ts |-> ts, t |-> t, s |-> "new", f |-> 0, idx |-> 0]}
                         /\ UNCHANGED <<idx, head, q, cons, phase>>
Upd(x, y) == ops' = (ops \ {x}) \cup {y}
\* u: the timestamp taken (its own, or some "now")
Publish(x, u) == /\ x.o = "pub" /\ x.s = "new" /\ (x.ts = Default \/ u = x.ts)
                 /\ idx' = idx + 1 /\ q' = q \cup {[v |-> x.v, idx |-> idx + 1, us |-> u]}
                 /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1, !.idx = idx + 1]) /\ UNCHANGED <<head, cons, phase>>
Move(x, u) == /\ x.o = "head" /\ x.s = "new" /\ (x.ts = Default \/ u = x.ts)
              /\ IF u > head THEN head' = u /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
                             ELSE head' = head /\ Upd(x, [x EXCEPT !.s = "done", !.f = 2])
              /\ UNCHANGED <<idx, q, cons, phase>>
Before(a, b) == a.us < b.us \/ (a.us = b.us /\ a.idx < b.idx)
Due == {m \in q : m.us <= head}
Take == \E m \in Due : /\ cons = <<>> /\ \A o \in Due : o = m \/ Before(m, o)
                       /\ cons' = <<[v |-> m.v, idx |-> m.idx, us |-> m.us, li |-> idx, lu |-> head, s |-> "taken"]>>
                       /\ q' = q \ {m} /\ UNCHANGED <<idx, head, ops, phase>>
Free == cons # <<>> /\ cons[1].s = "out" /\ cons' = <<>> /\ UNCHANGED <<idx, head, q, ops, phase>>
\* what is due is delivered before destruction ends; messages for the future are not
Die(x) == x.o = "destroy" /\ x.s = "new" /\ Due = {} /\ cons = <<>> /\ phase' = "dead" /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
          /\ UNCHANGED <<idx, head, q, cons>>
In(v, i, u, li, lu) == /\ cons # <<>> /\ cons[1].s = "taken" /\ cons[1].v = v /\ cons[1].idx = i /\ cons[1].us = u
                       /\ cons[1].li = li /\ cons[1].lu = lu /\ cons' = <<[cons[1] EXCEPT !.s = "in"]>>
                       /\ UNCHANGED <<idx, head, q, ops, phase>>
Out(v) == /\ cons # <<>> /\ cons[1].s = "in" /\ cons[1].v = v /\ cons' = <<[cons[1] EXCEPT !.s = "out"]>>
          /\ UNCHANGED <<idx, head, q, ops, phase>>
Ret(id, f, i) == \E x \in ops : /\ x.id = id /\ x.s = "done" /\ x.f = f /\ x.idx = i
                                /\ ops' = ops \ {x} /\ UNCHANGED <<idx, head, q, cons, phase>>
=============================================================================

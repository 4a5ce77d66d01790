------------------------------- MODULE Owned -------------------------------
(* Owned / Borrowed / BorrowedWithCallback handles of one object (bricks/sync/owned_borrowed.h).

   Handles are registered with the instance; the destructor of the owner raises the flag, collects the callbacks of the
   registered borrowers, calls them, waits until nobody is registered, and only then destroys the object.
   Operations of client threads are split into a call, one hidden atomic step, and a return.                          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
VARIABLES reg,      \* handles registered
          cbs,      \* those of them with a callback
          gone,     \* handles whose drop / move-away has returned
          ops,      \* operations in progress: [o, h, g, cb, done, f] (f: the flag, or a value seen)
          phase,    \* of the owner: "live", "called", "flagged", "collected", "dead", "done"
          tocall,   \* callbacks collected and not yet called
          called,   \* callbacks called
          late      \* a callback was called after its handle was gone
ovars == <<reg, cbs, gone, ops, phase, tocall, called, late>>
Owner == "o"
Alive == phase \notin {"dead", "done"}
Flag == phase \notin {"live", "called"}
Usable(h) == (h = Owner /\ phase = "live") \/ (h \in reg /\ \A x \in ops : x.g # h /\ (x.o \in {"drop", "move"} => x.h # h))
Op(o, h, g, cb) == [o |-> o, h |-> h, g |-> g, cb |-> cb, done |-> FALSE, f |-> 0]
InitO == reg = {} /\ cbs = {} /\ gone = {} /\ ops = {} /\ phase = "live" /\ tocall = {} /\ called = {} /\ late = FALSE

(* --- calls --- *)
Call(o, h, g, cb) == /\ Usable(h)
                     /\ ops' = ops \cup {[Op(o, h, g, cb) EXCEPT !.f = IF o = "valid" /\ Flag THEN 1 ELSE 0]}
                     /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
(* --- hidden steps --- *)
Set(x, y) == ops' = (ops \ {x}) \cup {y}
DoBorrow(x) == /\ x.o = "borrow" /\ ~x.done /\ Set(x, [x EXCEPT !.done = TRUE])
               /\ reg' = reg \cup {x.g} /\ cbs' = IF x.cb THEN cbs \cup {x.g} ELSE cbs
               /\ UNCHANGED <<gone, phase, tocall, called, late>>
DoMove(x) ==   /\ x.o = "move" /\ ~x.done /\ Set(x, [x EXCEPT !.done = TRUE])
               /\ reg' = (reg \ {x.h}) \cup {x.g} /\ cbs' = (cbs \ {x.h}) \cup (IF x.cb THEN {x.g} ELSE {})
               /\ UNCHANGED <<gone, phase, tocall, called, late>>
DoDrop(x) ==   /\ x.o = "drop" /\ ~x.done /\ Set(x, [x EXCEPT !.done = TRUE])
               /\ reg' = reg \ {x.h} /\ cbs' = cbs \ {x.h}
               /\ UNCHANGED <<gone, phase, tocall, called, late>>
DoCount(x) ==  /\ x.o = "count" /\ ~x.done /\ Set(x, [x EXCEPT !.done = TRUE, !.f = Cardinality(reg)])
               /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
Raise   == phase = "called" /\ phase' = "flagged" /\ UNCHANGED <<reg, cbs, gone, ops, tocall, called, late>>
Collect == phase = "flagged" /\ phase' = "collected" /\ tocall' = cbs /\ UNCHANGED <<reg, cbs, gone, ops, called, late>>
Hidden == Raise \/ Collect \/ \E x \in ops : DoBorrow(x) \/ DoMove(x) \/ DoDrop(x) \/ DoCount(x)
(* --- returns --- *)
Done(x) == ops' = ops \ {x}
RetBorrow(g) == \E x \in ops : x.o = "borrow" /\ x.g = g /\ x.done /\ Done(x) /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
RetMove(g)   == \E x \in ops : x.o = "move" /\ x.g = g /\ x.done /\ Done(x) /\ gone' = gone \cup {x.h}
                               /\ UNCHANGED <<reg, cbs, phase, tocall, called, late>>
RetDrop(h)   == \E x \in ops : x.o = "drop" /\ x.h = h /\ x.done /\ Done(x) /\ gone' = gone \cup {h}
                               /\ UNCHANGED <<reg, cbs, phase, tocall, called, late>>
RetUse(h, ok) == \E x \in ops : x.o = "use" /\ x.h = h /\ ok /\ Alive /\ Done(x) /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
RetValid(h, v) == \E x \in ops : x.o = "valid" /\ x.h = h /\ (IF v THEN x.f = 0 ELSE Flag) /\ Done(x)
                                 /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
RetCount(h, n) == \E x \in ops : x.o = "count" /\ x.h = h /\ x.done /\ x.f = n /\ Done(x)
                                 /\ UNCHANGED <<reg, cbs, gone, phase, tocall, called, late>>
(* --- the owner's destruction --- *)
DestroyCall == phase = "live" /\ phase' = "called" /\ UNCHANGED <<reg, cbs, gone, ops, tocall, called, late>>
Callback(h) == /\ phase = "collected" /\ h \in tocall /\ h \notin called
               /\ tocall' = tocall \ {h} /\ called' = called \cup {h}
               /\ late' = (late \/ h \in gone)
               /\ UNCHANGED <<reg, cbs, gone, ops, phase>>
Dtor == phase = "collected" /\ tocall = {} /\ reg = {} /\ phase' = "dead" /\ UNCHANGED <<reg, cbs, gone, ops, tocall, called, late>>
Destroyed == phase = "dead" /\ phase' = "done" /\ UNCHANGED <<reg, cbs, gone, ops, tocall, called, late>>
(* --- properties of the design --- *)
UseIsSafe == \A x \in ops : x.o \in {"use", "valid", "count", "borrow", "move"} => Alive
RegisteredImpliesAlive == reg # {} => Alive
CallbacksOfRegistered == called \subseteq (reg \cup gone \cup {x.h : x \in ops} \cup {x.g : x \in ops})
============================================================================

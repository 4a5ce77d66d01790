---------------------------- MODULE RoutesTrace ----------------------------
EXTENDS Routes, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, routes, th, infl, slots, nr
tvars == <<tid, l, routes, th, infl, slots, nr>>
T == Traces[tid].ev
Idle == [st |-> "idle"]
Threads == 1..4
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ routes = {} /\ th = [t \in Threads |-> Idle] /\ infl = {} /\ nr = 1
             /\ slots = {}       \* who may still drop what: [t, s, p, mask]
Done(t, res, old) == [st |-> "done", op |-> th[t].op, res |-> res, old |-> old]
Rs(x) == { y.r : y \in x }
\* Operations take effect at some moment between their call and their return.
Lin(t) ==
  /\ th[t].st = "called" /\ l <= Len(T)
  /\ LET op == th[t].op IN
     CASE op.o = "reg" ->
            LET res == RegResult(routes, op.path, op.mask, op.upd = 1)
                old == Removed(routes, op.path, op.mask) IN
            /\ th' = [th EXCEPT ![t] = Done(t, res, IF res = "ok" THEN old ELSE {})]
            /\ routes' = IF res = "ok" THEN Registered(routes, op.path, op.mask, op.id, nr) ELSE routes
            /\ nr' = nr + 1
            /\ slots' = IF res = "ok" /\ op.upd = 0 THEN slots \cup {[t |-> t, s |-> op.slot, p |-> op.path, mask |-> op.mask]} ELSE slots
            /\ UNCHANGED infl
       [] op.o = "drop" ->      \* one of those which remain in the slot (they go one after another)
            LET mine == { x \in slots : x.t = t /\ x.s = op.slot } IN
            IF mine = {} THEN th' = [th EXCEPT ![t] = Done(t, "ok", th[t].old)] /\ UNCHANGED <<routes, infl, slots, nr>>
            ELSE \E x \in mine :
                 /\ routes' = routes \ Removed(routes, x.p, x.mask)
                 /\ th' = [th EXCEPT ![t].old = @ \cup Removed(routes, x.p, x.mask)]
                 /\ slots' = slots \ {x} /\ UNCHANGED <<infl, nr>>
       [] op.o = "dropall" ->
            LET mine == { x \in slots : x.t = t } IN
            IF mine = {} THEN th' = [th EXCEPT ![t] = Done(t, "ok", th[t].old)] /\ UNCHANGED <<routes, infl, slots, nr>>
            ELSE \E x \in mine :
                 /\ routes' = routes \ Removed(routes, x.p, x.mask)
                 /\ th' = [th EXCEPT ![t].old = @ \cup Removed(routes, x.p, x.mask)]
                 /\ slots' = slots \ {x} /\ UNCHANGED <<infl, nr>>
       [] op.o = "count" -> th' = [th EXCEPT ![t] = Done(t, PathCount(routes), {})] /\ UNCHANGED <<routes, infl, slots, nr>>
       [] op.o = "req" ->
            LET m == Match(routes, op.path) IN
            /\ th' = [th EXCEPT ![t] = Done(t, IF m.found THEN m.id ELSE -404, {})]
            /\ infl' = IF m.found THEN infl \cup {[n |-> op.n, r |-> m.r, id |-> m.id, args |-> m.args, base |-> m.base, slash |-> HadSlash(op.path), ph |-> "found"]} ELSE infl
            /\ UNCHANGED <<routes, slots, nr>>
  /\ UNCHANGED <<tid, l>>
Call(e) == /\ th[e.t].st = "idle" /\ th' = [th EXCEPT ![e.t] = [st |-> "called", op |-> e.op, old |-> {}]] /\ UNCHANGED <<routes, infl, slots, nr>>
Ret(e) == /\ th[e.t].st = "done" /\ th[e.t].res = e.res
          /\ \A x \in infl : x.r \notin Rs(th[e.t].old)                      \* what was removed is not in use any more
          /\ th[e.t].op.o = "req" => \A x \in infl : x.n = th[e.t].op.n => x.ph = "in"
          /\ th' = [th EXCEPT ![e.t] = Idle] /\ UNCHANGED <<routes, infl, slots, nr>>
In(e) == \E x \in infl : /\ x.n = e.n /\ x.ph = "found" /\ x.id = e.id /\ x.args = e.args /\ x.base = e.base /\ x.slash = (e.slash = 1)
                         /\ infl' = (infl \ {x}) \cup {[x EXCEPT !.ph = "in"]} /\ UNCHANGED <<routes, th, slots, nr>>
Out(e) == \E x \in infl : x.n = e.n /\ x.ph = "in" /\ x.id = e.id /\ infl' = infl \ {x} /\ UNCHANGED <<routes, th, slots, nr>>
Consume(e) == CASE e.k = "call" -> Call(e) [] e.k = "ret" -> Ret(e) [] e.k = "in" -> In(e) [] e.k = "out" -> Out(e) [] OTHER -> FALSE
TraceNext == \/ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
             \/ \E t \in Threads : Lin(t)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

------------------------------ MODULE RoutesMC ------------------------------
(* Threads register, drop and request; the server thread looks handlers up and runs them.  A handler which is gone runs no more once the
   one who removed it has been told so. *)
EXTENDS Routes, TLC
CONSTANTS Threads, MaxOps, Paths, ReqPaths, Masks
VARIABLES routes, th, infl, left, next, gone
vars == <<routes, th, infl, left, next, gone>>
Idle == [st |-> "idle"]
Init == routes = {} /\ th = [t \in Threads |-> Idle] /\ infl = {} /\ left = MaxOps /\ next = 1 /\ gone = {}
Mine(t) == { x.r : x \in routes }
Call(t) ==
  /\ th[t].st = "idle" /\ left > 0 /\ left' = left - 1
  /\ \/ \E p \in Paths, m \in Masks, u \in BOOLEAN : th' = [th EXCEPT ![t] = [st |-> "reg", p |-> p, m |-> m, u |-> u, r |-> next]] /\ next' = next + 1
     \/ \E x \in routes : th' = [th EXCEPT ![t] = [st |-> "drop", p |-> x.p, m |-> 2 ^ x.n]] /\ next' = next
     \/ \E p \in ReqPaths : th' = [th EXCEPT ![t] = [st |-> "req", p |-> p, n |-> next]] /\ next' = next + 1
  /\ UNCHANGED <<routes, infl, gone>>
Lin(t) ==
  \/ /\ th[t].st = "reg"
     /\ LET o == th[t] res == RegResult(routes, o.p, o.m, o.u) IN
        IF res = "ok" THEN /\ routes' = Registered(routes, o.p, o.m, o.r, o.r)
                           /\ th' = [th EXCEPT ![t] = [st |-> "wait", old |-> { x.r : x \in Removed(routes, o.p, o.m) }]]
        ELSE routes' = routes /\ th' = [th EXCEPT ![t] = Idle]
     /\ UNCHANGED <<infl, left, next, gone>>
  \/ /\ th[t].st = "drop"
     /\ LET o == th[t] IN /\ routes' = routes \ Removed(routes, o.p, o.m)
                          /\ th' = [th EXCEPT ![t] = [st |-> "wait", old |-> { x.r : x \in Removed(routes, o.p, o.m) }]]
     /\ UNCHANGED <<infl, left, next, gone>>
  \/ /\ th[t].st = "req"
     /\ LET m == Match(routes, th[t].p) IN
        IF m.found THEN infl' = infl \cup {[n |-> th[t].n, r |-> m.r, ph |-> "found"]} ELSE infl' = infl
     /\ th' = [th EXCEPT ![t] = Idle]
     /\ UNCHANGED <<routes, left, next, gone>>
Enter == \E x \in infl : x.ph = "found" /\ infl' = (infl \ {x}) \cup {[x EXCEPT !.ph = "in"]} /\ UNCHANGED <<routes, th, left, next, gone>>
Leave == \E x \in infl : x.ph = "in" /\ infl' = infl \ {x} /\ UNCHANGED <<routes, th, left, next, gone>>
\* The remover is told when nobody uses what it removed.
Told(t) == /\ th[t].st = "wait" /\ (\A x \in infl : x.r \notin th[t].old)
           /\ th' = [th EXCEPT ![t] = Idle] /\ gone' = gone \cup (th[t].old \ { x.r : x \in routes }) /\ UNCHANGED <<routes, infl, left, next>>
Next == (\E t \in Threads : Call(t) \/ Lin(t) \/ Told(t)) \/ Enter \/ Leave
MCSpec == Init /\ [][Next]_vars
GoneIsGone == \A x \in infl : x.r \notin gone
OnePerRoute == \A x, y \in routes : (x.p = y.p /\ x.n = y.n) => x = y
\* (said for paths without empty components)
Longest == \A p \in ReqPaths : LET m == Match(routes, p) f == { x \in routes : Fits(x, p) } IN
  IF m.found THEN \E x \in f : x.r = m.r /\ x.id = m.id /\ x.p = m.base /\ x.n = Len(m.args) /\ (\A y \in f : Len(y.p) <= Len(x.p))
  ELSE f = {}
MCPaths == {<<47>>, <<47, 97>>, <<47, 97, 47, 98>>}
MCReqPaths == {<<47>>, <<47, 97>>, <<47, 97, 47>>, <<47, 97, 47, 98>>, <<47, 98>>, <<47, 98, 47, 97, 47, 98>>, <<47, 97, 47, 98, 47, 47, 97>>}
=============================================================================

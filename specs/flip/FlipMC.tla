------------------------------- MODULE FlipMC -------------------------------
EXTENDS Flip, Json
CONSTANTS MaxPub, MaxOps
VARIABLES ops, script
mvars == <<fvars, ops, script>>
Restrict == [idx |-> 0, size |-> 0, head |-> 0, clock |-> 0]
Restrictions == {Restrict, [Restrict EXCEPT !.idx = 1], [Restrict EXCEPT !.head = 2]}
\* node 1 is the master, the others follow
MCInit == /\ ns = [n \in Nodes |-> IF n = 1 THEN [Fresh("master", 0) EXCEPT !.exp = Restrict] ELSE [Fresh("follow", n - 1) EXCEPT !.exp = Restrict]]
          /\ p = [t \in Threads |-> None] /\ acc = <<>> /\ ops = 0 /\ script = <<>>
RECURSIVE Through(_, _, _)
Through(m, n, k) == m = n \/ (k > 0 /\ ns[m].role = "follow" /\ Through(ns[m].to, n, k - 1))
Consistent(n, m) == ~Through(m, n, N) /\ Prefix(ns[n].log, ns[m].log) /\ ns[n].head <= ns[m].head
Pubs == Len(acc)
Calls(t) == \/ \E n \in Nodes, o \in {"pub", "head"} : Pubs < MaxPub /\ Call(t, [o |-> o, n |-> n, us |-> ns[n].head + 2, j |-> ToString(Pubs), now |-> 0])
            \/ \E n \in Nodes, k \in Nodes : ns[n].role = "follow" /\ ~(\E u \in Threads : p[u] # None /\ p[u].o = "flip" /\ p[u].n = n) /\ Call(t, [o |-> "flip", n |-> n, key |-> k, now |-> 0])
            \/ \E n \in Nodes, m \in Nodes : ns[n].role = "ex" /\ Consistent(n, m) /\ ns[m].role # "ex" /\ ~(\E u \in Threads : p[u] # None /\ p[u].o \in {"follow", "flip"})
                                             /\ Call(t, [o |-> "follow", n |-> n, m |-> m, now |-> 0])
Do(t) == Publish(t) \/ Follow(t) \/ Flip(t) \/ Taken(t)
MCNext == /\ UNCHANGED script
          /\ \/ \E t \in Threads : ops < MaxOps /\ Calls(t) /\ ops' = ops + 1
             \/ UNCHANGED ops /\ \E t \in Threads : Do(t) \/ (p[t] # None /\ p[t].s = "ret" /\ Ret(t, p[t].r))
             \/ UNCHANGED ops /\ \E n \in Nodes : Sync(n)
             \/ UNCHANGED ops /\ Restore
MCSpec == MCInit /\ [][MCNext]_mvars
MCInv == OneMaster /\ NothingLost
\* if nothing breaks somebody is the master, or is about to be
SomeMaster == Lossy \/ Masters # {} \/ \E t \in Threads : p[t] # None /\ p[t].o = "flip" /\ p[t].s = "taken"
\* what a flip which does not succeed changes: nothing but who is blocked
Refused == [][\A t \in Threads : p[t] # None /\ p[t].o = "flip" /\ p[t].s \in {"new", "taken"} /\ p'[t].s = "ret" /\ p'[t].r \in {"refused", "exc"}
                => ns'[p[t].n].role = "follow" /\ ns'[p[t].n].log = ns[p[t].n].log /\ (N = 2 /\ ~Lossy => \A n \in Nodes : ns'[n].role = ns[n].role \/ (ns[n].role = "master" /\ ns'[n].role = "hold"))]_mvars
\* ---------------------------------------------------------------- programs: everything waits for everything
RECURSIVE SyncAll(_, _)
SyncAll(s, k) == IF k = 0 THEN s ELSE SyncAll([n \in Nodes |-> IF s[n].role = "follow" /\ s[s[n].to].exp # None THEN [s[n] EXCEPT !.log = s[s[n].to].log, !.head = s[s[n].to].head] ELSE s[n]], k - 1)
Step(s, x) == ns' = SyncAll(RestoreAll(s), N) /\ script' = Append(script, x) /\ UNCHANGED p
GenNext ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E n \in Nodes : Pubs < MaxPub /\ acc' = Append(acc, [us |-> 0, j |-> ""]) /\ LET x == ns[n] IN
          Step(IF x.role = "master" THEN [ns EXCEPT ![n].head = @ + 2, ![n].log = Append(@, [us |-> x.head + 2, j |-> "1"])] ELSE ns, <<"pub", n, x.head + 2, x.role>>)
     \/ \E n \in Nodes : Pubs < MaxPub /\ acc' = Append(acc, [us |-> 0, j |-> ""]) /\ ns[n].role = "master"
          /\ Step([ns EXCEPT ![n].head = @ + 2], <<"head", n, ns[n].head + 2, "master">>)
     \/ UNCHANGED acc /\ \E n \in Nodes, key \in Nodes \cup {0} :
          LET x == ns[n] r == Ask(ns, x.to, [size |-> Len(x.log), hd |-> x.head, key |-> key, clk |-> 0], 0) IN
          IF x.role # "follow" THEN Step(ns, <<"flip", n, key>>)
          ELSE Step(IF r.ok THEN [r.s EXCEPT ![n].log = r.s[x.to].log, ![n].head = r.s[x.to].head, ![n].role = "master", ![n].to = 0]
                    ELSE [k \in Nodes |-> [r.s[k] EXCEPT !.until = 0, !.delay = Second]], <<"flip", n, key>>)
     \/ UNCHANGED acc /\ \E n \in Nodes, m \in Nodes : n # m /\ (ns[n].role = "follow" \/ (ns[n].role = "ex" /\ Consistent(n, m)))
          /\ Step(IF ns[n].role = "ex" /\ ns[m].exp # None THEN [ns EXCEPT ![n].role = "follow", ![n].to = m] ELSE ns, <<"follow", n, m>>)
     \/ UNCHANGED acc /\ \E n \in Nodes : (~\E m \in Nodes : ns[m].role = "follow" /\ ns[m].to = n)
          /\ \/ ns[n].exp # None /\ Step([ns EXCEPT ![n].exp = None], <<"unexpose", n>>)
             \/ \E e \in Restrictions : Step([ns EXCEPT ![n].exp = IF @ = None THEN e ELSE @], <<"expose", n, e>>)
     \/ UNCHANGED acc /\ \E n \in Nodes, d \in {0, 1, 2} : LET x == ns[n] k == Len(x.log) - d IN
          ns[n].role = "master" /\ k >= 0 /\ d <= Len(x.log) /\
          LET hd == IF k = 0 THEN Nothing ELSE IF d = 0 THEN x.head ELSE x.log[k].us
              r == Ask(ns, n, [size |-> k, hd |-> hd, key |-> n, clk |-> 0], 0) IN Step(r.s, <<"ask", n, k, hd>>)
GenSpec == MCInit /\ [][GenNext]_mvars
GenView == <<ns, ops>>
GenPrint == (ops' = MaxOps) => PrintT("GEN " \o ToJson(script'))
GenAll == ops' > 0 => PrintT("GEN " \o ToJson(script'))
=============================================================================

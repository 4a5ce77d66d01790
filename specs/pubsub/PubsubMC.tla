------------------------------ MODULE PubsubMC ------------------------------
(* The publisher publishes MaxPub entries and moves the head MaxHead times while one request is served.                                     *)
EXTENDS Pubsub, Json
CONSTANTS MaxPub, MaxHead, Rich
VARIABLES heady, script, steps
mvars == <<pvars, heady, script, steps>>
Us == 1..4
Text(n) == IF n % 2 = 0 THEN "a" ELSE "bbbb"
Default == [m |-> "GET", i |-> 0, n |-> 0, tail |-> Nothing, since |-> 0, recent |-> 0, period |-> 0, sab |-> 0, nowait |-> FALSE, eo |-> FALSE, arr |-> FALSE,
            size |-> FALSE, bad |-> FALSE, chk |-> FALSE]
Left == {[Default EXCEPT !.i = i, !.tail = t, !.since = s] : i \in (IF Rich THEN {0, 1, 2, 5} ELSE {0, 1}), t \in (IF Rich THEN {Nothing, 0, 1, 2} ELSE {Nothing, 0, 1}),
          s \in (IF Rich THEN {0, 2, 4} ELSE {0, 2})}
        \cup {[Default EXCEPT !.recent = r, !.i = i] : r \in (IF Rich THEN {1, 3, 99} ELSE {2}), i \in {0, 2}}
Right == IF ~Rich THEN {[n |-> 0, period |-> 0, sab |-> 0], [n |-> 1, period |-> 0, sab |-> 0], [n |-> 0, period |-> 1, sab |-> 0], [n |-> 0, period |-> 0, sab |-> 40]} ELSE
         {[n |-> 0, period |-> 0, sab |-> 0], [n |-> 1, period |-> 0, sab |-> 0], [n |-> 2, period |-> 0, sab |-> 0], [n |-> 0, period |-> 1, sab |-> 0],
          [n |-> 0, period |-> 2, sab |-> 0], [n |-> 0, period |-> 0, sab |-> 2], [n |-> 0, period |-> 0, sab |-> 40], [n |-> 2, period |-> 1, sab |-> 90]}
Form == {[nowait |-> nw, arr |-> a, eo |-> a \/ e] : nw \in BOOLEAN, a \in BOOLEAN, e \in (IF Rich THEN BOOLEAN ELSE {FALSE})}
Queries == {[x EXCEPT !.n = r.n, !.period = r.period, !.sab = r.sab, !.nowait = f.nowait, !.arr = f.arr, !.eo = f.eo, !.chk = FALSE] : x \in Left, r \in Right, f \in Form}
           \cup {[Default EXCEPT !.size = TRUE, !.m = m] : m \in {"GET", "HEAD"}} \cup {[Default EXCEPT !.m = "POST"], [Default EXCEPT !.bad = TRUE]}
MCInit == Init0 /\ heady = 0 /\ script = <<>> /\ steps = 0
\* published so far or under way
Pubs == Len(log) + (IF w.o = "pub" THEN 1 ELSE 0)
NextUs == IF w = None THEN {u \in Us : u > head /\ u <= head + 2} ELSE {}
Publish(u) == Pubs < MaxPub /\ Call([o |-> "pub", us |-> u, j |-> Text(Pubs)]) /\ UNCHANGED heady
Move(u) == heady < MaxHead /\ Call([o |-> "head", us |-> u, j |-> ""]) /\ heady' = heady + 1
Ask == req = "" /\ c.st # "none" /\ \E r \in {"term", "kill"} : req' = r /\ UNCHANGED <<log, head, heads, w, c, heady>>
Server == Serve(4) \/ Entry \/ (\E us \in heads : HeadIs(us)) \/ Terminate \/ Destroyed
MCNext == /\ \/ \E u \in NextUs : Publish(u) \/ Move(u)
             \/ (Commit \/ Ret) /\ UNCHANGED heady
             \/ (\E q \in Queries : Send(q)) /\ UNCHANGED heady
             \/ Ask
             \/ Server /\ UNCHANGED heady
          /\ UNCHANGED <<script, steps>>
MCSpec == MCInit /\ [][MCNext]_mvars
\* ---------------------------------------------------------------- what is promised
Q == c.q
TextOf(i) == IF Q.eo THEN log[i + 1].j ELSE Full(i)
\* the lines which are entries, in order
IsEntry(x) == x \notin {"[", ",", "]", "[]", ErrorLine} /\ \A us \in heads : x # HeadLine(us)
Entries == IF c.st \in {"open", "done"} /\ c.code = 200 /\ ~Q.size /\ Q.m = "GET" THEN SelectSeq(c.out, IsEntry) ELSE <<>>
\* entry i is asked for, given that there were `n` entries when it was looked at
Asked(i, n) == /\ i >= c.begin
               /\ (c.from > 0 => i >= Q.i /\ log[i + 1].us >= c.from /\ (c.tail = 0 \/ n - i <= c.tail))
\* the entries form one stretch of the log, which begins with the first one asked for
FirstIs(f) == Asked(f, f + 1) /\ \A i \in c.begin..(f - 1) : ~Asked(i, Len(log))
Stretch == Entries # <<>> => \E f \in 0..(Len(log) - 1) : /\ FirstIs(f) /\ f + Len(Entries) <= Len(log)
                                                          /\ \A k \in 1..Len(Entries) : Entries[k] = TextOf(f + k - 1)
Firsts == {f \in 0..(Len(log) - 1) : FirstIs(f) /\ f + Len(Entries) <= Len(log) /\ \A k \in 1..Len(Entries) : Entries[k] = TextOf(f + k - 1)}
RECURSIVE SumBytes(_, _)
SumBytes(a, b) == IF a > b THEN 0 ELSE Bytes(Q, a) + SumBytes(a + 1, b)
Limits == Entries # <<>> => \E f \in Firsts : LET last == f + Len(Entries) - 1 IN
            /\ (Q.n > 0 => Len(Entries) <= Q.n)
            /\ (Q.period > 0 => log[last + 1].us - log[f + 1].us <= Q.period)
            /\ (Q.sab > 0 => SumBytes(f, last - 1) < Q.sab)
\* a subscription which has ended without being asked to has a reason
Ends == c.st = "done" /\ c.code = 200 /\ ~Q.size /\ Q.m = "GET" /\ req = "" =>
          \/ Q.nowait /\ (\E f \in Firsts : f + Len(Entries) >= c.s0)
          \/ Q.nowait /\ Entries = <<>> /\ (\A i \in 0..(c.s0 - 1) : ~Asked(i, Len(log)))
          \/ Q.n > 0 /\ Len(Entries) = Q.n
          \/ Q.period > 0
          \/ Q.sab > 0 /\ (\E f \in Firsts : SumBytes(f, f + Len(Entries) - 1) >= Q.sab)
\* with `array` a response which is complete is one array
Array == c.st = "done" /\ c.code = 200 /\ Q.arr /\ ~Q.size /\ Q.m = "GET" =>
           \/ c.out = <<"[]">>
           \/ req # "" /\ c.out = <<ErrorLine>>
           \/ /\ Len(c.out) % 2 = 1 /\ c.out[1] = "[" /\ c.out[Len(c.out)] = "]"
              /\ \A k \in 2..(Len(c.out) - 1) : IF k % 2 = 1 THEN c.out[k] = "," ELSE c.out[k] \notin {"[", ",", "]", "[]"}
\* nothing is due and nothing is going on: all that was asked for has been served
Complete == c.st = "open" /\ Settled =>
              (\A i \in c.begin..(Len(log) - 1) : Asked(i, i + 1) /\ c.tail = 0 => \E k \in 1..Len(Entries) : Entries[k] = TextOf(i)) /\ Q.nowait = FALSE
MCInv == Stretch /\ Limits /\ Ends /\ Array /\ Complete
\* ---------------------------------------------------------------- programs for the implementation: everything waits for everything
GenNext == /\ steps < MaxPub + MaxHead + 1 /\ steps' = steps + 1
           /\ \/ \E u \in NextUs : \/ /\ Pubs < MaxPub /\ log' = Append(log, [us |-> u, j |-> Text(Pubs)]) /\ head' = u /\ heads' = heads \cup {u}
                                      /\ script' = Append(script, <<"pub", u>>) /\ UNCHANGED <<w, c, req, heady>>
                                   \/ /\ heady < MaxHead /\ heady' = heady + 1 /\ head' = u /\ heads' = heads \cup {u} /\ script' = Append(script, <<"head", u>>)
                                      /\ UNCHANGED <<log, w, c, req>>
              \/ /\ c.st = "none" /\ c' = [Fresh EXCEPT !.st = "sent"] /\ script' = Append(script, <<"get", 0>>) /\ UNCHANGED <<log, head, heads, w, req, heady>>
GenSpec == MCInit /\ [][GenNext]_mvars
GenPrint == (steps' = MaxPub + MaxHead + 1) => PrintT("GEN " \o ToJson(script'))
GenQ2 == steps = 0 => PrintT("GEN " \o ToJson(Queries))
=============================================================================

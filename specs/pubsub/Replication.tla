---------------------------- MODULE Replication ----------------------------
(* A stream which follows a remote one over HTTP (stream/replicator.h): RemoteSubscriberThread and StreamReplicator against the service of stream/pubsub.h.

   The master, its service and the connection are of Pubsub.tla; c.out are the lines which were sent on the current connection.
   f  the follower: on (subscribed), log, head; next and from are what it would ask for; k lines of the connection have been received;
      w an entry or a head which is being published into the follower's stream.
   A connection of a service which is not this master's has c.st = "raw", and c.say is what is still to come of it, a sequence of
   [o |-> "pub" / "head" / "junk" (a line with a tab) / "bad", i, us, j].
   RM is "checked" or "unchecked": whether the follower parses the entries.                                                                        *)
EXTENDS Pubsub
VARIABLES f
CONSTANT RM
rvars == <<pvars, f>>
F0 == [on |-> FALSE, log |-> <<>>, head |-> Nothing, next |-> 0, from |-> 0, k |-> 0, w |-> None]
Query(i, since) == [m |-> "GET", i |-> i, n |-> 0, tail |-> Nothing, since |-> since, recent |-> 0, period |-> 0, sab |-> 0, nowait |-> FALSE, eo |-> FALSE,
                    arr |-> FALSE, size |-> FALSE, bad |-> FALSE]
\* subscribed from where it is; the caller chooses whether to say from what time
Start(from) == ~f.on /\ from \in {0, f.head + 1} /\ f' = [f EXCEPT !.on = TRUE, !.next = Len(f.log), !.from = from, !.k = 0] /\ UNCHANGED pvars
Stop == f.on /\ f.w = None /\ f' = [f EXCEPT !.on = FALSE] /\ c' = Fresh /\ UNCHANGED <<log, head, heads, w, req>>
\* what comes next cannot be received: the follower gives the connection up
Reaches(x) == IF RM = "checked" THEN /\ x.o \in {"pub", "head"} /\ (f.from > 0 => x.us >= f.from) /\ (x.o = "pub" => x.i = f.next)
                                ELSE x.o \in {"pub", "head", "junk"}
RawOver == IF c.st = "raw" THEN (IF c.say = <<>> THEN TRUE ELSE ~Reaches(c.say[1])) ELSE FALSE
Connect == /\ f.on /\ f.w = None /\ f' = [f EXCEPT !.k = 0]
           /\ c' = [Fresh EXCEPT !.st = "sent", !.q = Query(f.next, f.from)] /\ UNCHANGED <<log, head, heads, w, req>>
\* somebody else answers
Raw(lines) == c.st = "sent" /\ c' = ([say |-> lines] @@ [c EXCEPT !.st = "raw"]) /\ UNCHANGED <<log, head, heads, w, req, f>>
Acceptable(o, i, us) == o \in {"pub", "head"} /\ us > f.head /\ (o = "pub" => i = Len(f.log))
LineOf(o, i, us, j) == IF o = "head" THEN HeadLine(us) ELSE "{\"index\":" \o ToString(i) \o ",\"us\":" \o ToString(us) \o "}\t" \o j
Rx(o, i, us, j) ==
  /\ f.on /\ f.w = None
  /\ \/ /\ c.st = "open" /\ f.k < Len(c.out) /\ c.out[f.k + 1] = LineOf(o, i, us, j) /\ UNCHANGED c
     \/ /\ c.st = "raw" /\ c.say # <<>> /\ Reaches(c.say[1])
        /\ o = (IF c.say[1].o = "junk" THEN "pub" ELSE c.say[1].o) /\ us = c.say[1].us /\ (o = "pub" => i = c.say[1].i /\ j = c.say[1].j)
        /\ c' = [c EXCEPT !.say = Tail(@)]
  /\ f' = [f EXCEPT !.k = @ + 1, !.w = [o |-> o, i |-> i, us |-> us, j |-> j, s |-> IF Acceptable(o, i, us) THEN "new" ELSE IF o = "head" THEN "ok" ELSE "no"]]
  /\ UNCHANGED <<log, head, heads, w, req>>
FCommit == /\ f.w # None /\ f.w.s = "new"
           /\ f' = [f EXCEPT !.w.s = "ok", !.head = f.w.us, !.log = IF f.w.o = "pub" THEN Append(@, [us |-> f.w.us, j |-> f.w.j]) ELSE @]
           /\ UNCHANGED pvars
FRet(ok) == /\ f.w # None /\ f.w.s = (IF ok THEN "ok" ELSE "no")
            /\ IF ok THEN f' = [f EXCEPT !.w = None, !.next = IF f.w.o = "pub" THEN @ + 1 ELSE @, !.from = IF f.w.o = "pub" THEN 0 ELSE f.w.us + 1] /\ UNCHANGED c
                     ELSE f' = [f EXCEPT !.w = None] /\ c' = Fresh
            /\ UNCHANGED <<log, head, heads, w, req>>
Received == c.st = "open" /\ f.k = Len(c.out)
\* everything has been said and received
InSync == f.log = log /\ f.head = head
PrefixOf == Len(f.log) <= Len(log) /\ \A i \in 1..Len(f.log) : f.log[i] = log[i]
\* at any time the follower is what the master was at some time
Faithful == /\ PrefixOf /\ f.head \in heads /\ (\A i \in 1..Len(log) : log[i].us <= f.head => i <= Len(f.log))
            /\ (f.log # <<>> => f.log[Len(f.log)].us <= f.head)
=============================================================================

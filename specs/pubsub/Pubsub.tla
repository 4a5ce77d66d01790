------------------------------- MODULE Pubsub -------------------------------
(* A stream served over HTTP (stream/pubsub.h, ServeDataViaHTTP of stream/stream.h): the log, its head, and one connection.

   log     sequence of [us, j]: entry i is log[i + 1], j its JSON        head, heads   as of Stream.tla
   w       what the publisher is doing (a call which has not returned): None or [o, us, j]
   c       the connection: st = "none" / "sent" (request sent) / "open" (subscribed) / "done" / "err"
           q the parameters; out the lines of the response's body; code; s0 the size of the stream when the request was served
   req     the end of the subscription is requested: "" / "term" / "kill" (the stream is being destroyed)

   The parameters: m the method, i, n, tail (-1: not given), since, recent (0: not given), period, sab (stop_after_bytes), nowait, eo (entries_only),
   arr (array), size (sizeonly), bad (a `json` which is not known)                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES log, head, heads, w, c, req
pvars == <<log, head, heads, w, c, req>>
None == [o |-> ""]
Nothing == 0 - 1
Last == IF log = <<>> THEN Nothing ELSE log[Len(log)].us
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* ---------------------------------------------------------------- text
HeadLine(us) == "{\"us\":" \o ToString(us) \o "}"
Full(i) == "{\"index\":" \o ToString(i) \o ",\"us\":" \o ToString(log[i + 1].us) \o "}\t" \o log[i + 1].j
Digits(n) == Len(ToString(n))
\* the bytes of an entry as sent; a timestamp has 16 digits (it is relative here)
Bytes(q, i) == IF q.eo THEN Len(log[i + 1].j) + 1 ELSE Len("{'index':,'us':}") + Digits(i) + 16 + 1 + Len(log[i + 1].j) + 1
ErrorLine == "{\"error\":\"The subscriber has terminated.\"}"
\* ---------------------------------------------------------------- the publisher (one at a time, timestamps increase)
Call(x) == w = None /\ w' = x /\ UNCHANGED <<log, head, heads, c, req>>
Commit == /\ w.o \in {"pub", "head"} /\ w.us > head
          /\ head' = w.us /\ heads' = heads \cup {w.us} /\ log' = IF w.o = "pub" THEN Append(log, [us |-> w.us, j |-> w.j]) ELSE log
          /\ w' = [w EXCEPT !.o = "ret"] /\ UNCHANGED <<c, req>>
Ret == w.o = "ret" /\ w' = None /\ UNCHANGED <<log, head, heads, c, req>>
\* ---------------------------------------------------------------- the request
Fresh == [st |-> "none", q |-> None, out |-> <<>>, code |-> 0, s0 |-> 0, next |-> 0, begin |-> 0, from |-> 0, wait |-> 0, tail |-> 0, serving |-> FALSE,
          to |-> 0, left |-> 0, bytes |-> 0, hd |-> Nothing]
Send(q) == c.st = "none" /\ c' = [Fresh EXCEPT !.st = "sent", !.q = q] /\ UNCHANGED <<log, head, heads, w, req>>
\* the first entry from `ts` on
FirstAt(ts) == LET S == {i \in 1..Len(log) : log[i].us >= ts} IN IF S = {} THEN Len(log) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Answer(code, out) == c' = [c EXCEPT !.st = "done", !.code = code, !.out = out, !.s0 = Len(log)]
\* `now`: the time of the request
Serve(now) ==
  LET q == c.q size == Len(log)
      from == IF q.recent > 0 THEN Max2(1, now - q.recent) ELSE IF q.since > 0 THEN q.since ELSE 0
      tail == IF q.tail = 0 THEN size ELSE IF q.tail > 0 THEN q.tail ELSE 0
      begin == IF q.tail = 0 THEN size ELSE IF q.tail > 0 THEN Max2(q.i, IF q.tail < size THEN size - q.tail ELSE 0)
                 ELSE IF from > 0 THEN Max2(q.i, FirstAt(from)) ELSE q.i
  IN /\ c.st = "sent"
     /\ IF q.m \notin {"GET", "HEAD"} /\ ~q.bad THEN Answer(405, <<>>)
        ELSE IF q.bad THEN Answer(404, <<>>)
        ELSE IF q.size \/ q.m = "HEAD" THEN Answer(200, IF q.m = "GET" THEN <<ToString(size)>> ELSE <<>>)
        ELSE IF q.nowait /\ begin >= size THEN Answer(204, <<>>)
        ELSE c' = [c EXCEPT !.st = "open", !.code = 200, !.s0 = size, !.begin = begin, !.next = begin, !.tail = tail, !.from = from,
                   !.wait = IF q.tail = Nothing THEN from ELSE 0, !.serving = (q.since = 0 /\ q.recent = 0), !.left = q.n,
                   !.hd = IF q.tail = Nothing /\ from > 0 THEN from - 1 ELSE Nothing]
     /\ UNCHANGED <<log, head, heads, w, req>>
\* ---------------------------------------------------------------- the subscription
Started(x) == x.out # <<>>
Close(x) == [x EXCEPT !.st = "done", !.out = IF x.q.arr THEN (IF Started(x) THEN Append(@, "]") ELSE Append(@, "[]")) ELSE @]
\* the next entry; it matters which one is the last at that moment
Entry ==
  LET li == Len(log) - 1 i == c.next q == c.q u == log[i + 1].us
      serve == c.serving \/ (i >= q.i /\ (c.tail = 0 \/ li - i < c.tail) /\ (c.from = 0 \/ u >= c.from))
      x == [c EXCEPT !.next = i + 1, !.hd = u]
      to == IF c.to # 0 THEN c.to ELSE IF q.period > 0 THEN u + q.period ELSE 0
      text == IF q.eo THEN log[i + 1].j ELSE Full(i)
      y == [x EXCEPT !.serving = TRUE, !.to = to, !.bytes = @ + Bytes(q, i), !.left = IF @ > 0 THEN @ - 1 ELSE 0,
                     !.out = IF q.arr THEN @ \o <<IF Started(c) THEN "," ELSE "[", text>> ELSE Append(@, text)]
  IN /\ c.st = "open" /\ i < Len(log) /\ head >= c.wait
     /\ c' = IF ~serve THEN (IF q.nowait /\ i = li THEN Close(x) ELSE x)
             ELSE IF to # 0 /\ u > to THEN Close([x EXCEPT !.serving = TRUE])
             ELSE IF (q.sab > 0 /\ y.bytes >= q.sab) \/ (q.n > 0 /\ y.left = 0) \/ (q.nowait /\ i = li) THEN Close(y) ELSE y
     /\ UNCHANGED <<log, head, heads, w, req>>
CanHead(us) == /\ c.st = "open" /\ us \in heads /\ us > c.hd /\ us >= c.wait /\ Len(log) >= c.begin
               /\ \A j \in (c.next + 1)..Len(log) : log[j].us > us
               /\ \A j \in 1..c.next : log[j].us < us  \* (what is the head because of an entry is not news)
HeadIs(us) ==
  LET q == c.q
      serve == c.serving \/ (c.from > 0 /\ us >= c.from)
      to == IF c.to # 0 THEN c.to ELSE IF q.period > 0 THEN us + q.period ELSE 0
      x == [c EXCEPT !.hd = us, !.serving = serve]
  IN /\ CanHead(us)
     /\ c' = IF ~serve THEN x ELSE IF to # 0 /\ us > to THEN Close(x)
             ELSE [x EXCEPT !.to = to, !.out = IF q.eo THEN @ ELSE Append(@, HeadLine(us))]
     /\ UNCHANGED <<log, head, heads, w, req>>
\* asked to end: an error message, which does not spoil the array; or (the stream is being destroyed) just the end
Terminate == /\ c.st = "open" /\ req # ""
             /\ c' = IF c.q.arr /\ Started(c) THEN [c EXCEPT !.st = "done", !.out = @ \o <<",", ErrorLine, "]">>]
                     ELSE [c EXCEPT !.st = "done", !.out = Append(@, ErrorLine)]
             /\ UNCHANGED <<log, head, heads, w, req>>
Destroyed == c.st = "open" /\ req = "kill" /\ c' = Close(c) /\ UNCHANGED <<log, head, heads, w, req>>
\* nothing is left to be done: everything published has been served
Settled == /\ w = None /\ c.st # "sent" /\ (c.st = "open" => req = "" /\ ~(c.next < Len(log) /\ head >= c.wait) /\ ~(head > Last /\ CanHead(head)))
Init0 == log = <<>> /\ head = Nothing /\ heads = {Nothing} /\ w = None /\ c = Fresh /\ req = ""
=============================================================================

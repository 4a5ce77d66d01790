---------------------------- MODULE ResponseTrace ----------------------------
(* Recorded: what the handler sent (q), what the network did (q.down: how many bytes of the response could pass, -1: all), what the client got. *)
EXTENDS Response, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
SetOf(s) == { s[i] : i \in 1..Len(s) }
ContentTypeName == <<67,111,110,116,101,110,116,45,84,121,112,101>>
ConnectionName == <<67,111,110,110,101,99,116,105,111,110>>
CorsName == <<65,99,99,101,115,115,45,67,111,110,116,114,111,108,45,65,108,108,111,119,45,79,114,105,103,105,110>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
IsChunked(q) == q.how = "chunks"
Sent(q) == IF IsChunked(q) THEN NonEmpty([i \in 1..Len(q.chunks) |-> q.chunks[i].d]) ELSE <<q.body>>
WholeBody(q) == IF IsChunked(q) THEN Concat(Sent(q)) ELSE q.body
UserHeaders(q) == Headers(q.h, 1, <<>>)
OfUser(q, hs) == SelectSeq(hs, LAMBDA x : \E i \in 1..Len(UserHeaders(q)) : NameEq(UserHeaders(q)[i][1], x[1]))
HeadersRight(q, hs) ==
  /\ OfUser(q, hs) = UserHeaders(q)
  /\ <<ContentTypeName, q.ct>> \in SetOf(hs)
  /\ \E i \in 1..Len(hs) : hs[i][1] = ConnectionName
  /\ IF IsChunked(q) THEN <<TransferEncodingName, Chunked>> \in SetOf(hs) ELSE <<ContentLengthName, Dec(Len(q.body))>> \in SetOf(hs)
  /\ \A i \in 1..Len(hs) : hs[i] \in SetOf(OfUser(q, hs)) \/ hs[i][1] \in {ContentTypeName, ConnectionName, CorsName, TransferEncodingName, ContentLengthName}
CookiesRight(q, ck) == SetOf(ck) = { <<q.ck[i][1], q.ck[i][2]>> : i \in 1..Len(q.ck) }
Complete(q, e) ==
  /\ e.code = q.code
  /\ IF q.client # "chunked" THEN e.body = WholeBody(q) /\ HeadersRight(q, e.h) /\ CookiesRight(q, e.ck)
     ELSE /\ e.done = 1 /\ e.chunks = Sent(q)
          /\ HeadersRight(q, SelectSeq(e.h, LAMBDA x : ~IsCookie(x[1])))
          /\ AreLinesOf(e.lines, WholeBody(q))
Resp(e) ==
  LET q == e.q IN
  IF e.ex = 0 THEN Complete(q, e)
  ELSE /\ q.down >= 0                       \* the connection broke, and the client says so
       /\ e.done = 0
       /\ IsPrefixOf(e.chunks, Sent(q))
\* The request as the client's user gave it, and as the handler saw it.
NamesOf(hs) == { hs[i][1] : i \in 1..Len(hs) }
ReqRight(e) ==
  LET q == e.q r == e.r IN
  /\ e.ex = 0 /\ e.code = 200
  /\ r.m = q.m /\ r.p = q.p /\ r.b = q.body
  /\ OfUser(q, r.h) = UserHeaders(q)
  /\ CookiesRight(q, r.ck)
  /\ q.ct # <<>> => <<ContentTypeName, q.ct>> \in SetOf(r.h)
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Consume(e) == CASE e.k = "resp" -> Resp(e) [] e.k = "echo" -> ReqRight(e) [] OTHER -> FALSE
TraceNext == /\ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================

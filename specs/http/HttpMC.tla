------------------------------- MODULE HttpMC -------------------------------
(* Every request of a small domain, written down in every way the protocol allows and delivered in every fragmentation, is understood as
   what it was; nothing is taken for complete before it is, and what follows it is left alone. *)
EXTENDS Http, FiniteSets, TLC, Json
CONSTANTS MaxBody, Tails
VARIABLES msg, pos, st
mvars == <<msg, pos, st>>
CRLF == <<CR, LF>>
Get == <<71, 69, 84>>
BodyBytes == {97, CR, LF, 48}
SeqsUpTo(n) == UNION { [1..k -> BodyBytes] : k \in 0..n }
\* All the ways of cutting a body into chunks.
RECURSIVE Cuts(_)
Cuts(b) == IF b = <<>> THEN {<<>>} ELSE UNION { { <<SubSeq(b, 1, k)>> \o c : c \in Cuts(SubSeq(b, k + 1, Len(b))) } : k \in 1..Len(b) }
RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>> ELSE <<48 + Len(c[1])>> \o CRLF \o c[1] \o CRLF \o Flat(Tail(c))
HeadOf(m) == m \o <<SP, 47>> \o CRLF
H(n, v) == n \o <<COLON, SP>> \o v \o CRLF
Reqs ==
  { [bytes |-> pre \o HeadOf(m) \o H(<<88>>, <<121>>) \o H(ContentLengthName, <<48 + Len(b)>>) \o CRLF \o b, m |-> m, b |-> b, chunks |-> <<>>, kind |-> "done"]
      : pre \in {<<>>, CRLF}, m \in {Get, Post}, b \in SeqsUpTo(MaxBody) }
  \cup UNION { { [bytes |-> HeadOf(Post) \o H(TransferEncodingName, Chunked) \o CRLF \o Flat(c) \o <<48>> \o CRLF, m |-> Post, b |-> b, chunks |-> c, kind |-> "done"]
      : c \in Cuts(b) } : b \in SeqsUpTo(MaxBody) }
  \cup { [bytes |-> HeadOf(Get) \o CRLF, m |-> Get, b |-> <<>>, chunks |-> <<>>, kind |-> "done"],
         [bytes |-> HeadOf(Post) \o CRLF, m |-> Post, b |-> <<>>, chunks |-> <<>>, kind |-> "e411"],
         [bytes |-> HeadOf(Post) \o H(TransferEncodingName, Chunked) \o CRLF \o <<122>> \o CRLF, m |-> Post, b |-> <<>>, chunks |-> <<>>, kind |-> "e400"],
         [bytes |-> HeadOf(Post) \o H(ContentLengthName, <<57,57,57,57,57,57,57,57>>) , m |-> Post, b |-> <<>>, chunks |-> <<>>, kind |-> "e413"] }
All(r) == r.bytes \o r.tail
MCInit == \E r \in Reqs, t \in Tails : msg = (r @@ [tail |-> t]) /\ pos = 0 /\ st = Init0
Deliver == /\ pos < Len(All(msg))
           /\ \E n \in 1..(Len(All(msg)) - pos) : pos' = pos + n /\ st' = Run(st, SubSeq(All(msg), pos + 1, pos + n), 1)
           /\ UNCHANGED msg
MCSpec == MCInit /\ [][Deliver]_mvars
NotEarly == pos < Len(msg.bytes) => st.mode \notin Final
Understood == pos >= Len(msg.bytes) => st.mode = msg.kind /\ st.m = msg.m /\ (msg.kind = "done" => st.body = msg.b) /\ st.chunks = msg.chunks
Prefix == st = Parse(SubSeq(All(msg), 1, pos))

\* Every message cut into two pieces: replayed against the server.
GenCut == /\ pos = 0
          /\ PrintT("GEN " \o ToJson([in |-> All(msg), at |-> pos', n |-> Len(msg.bytes)]))
MCTails == {<<>>, <<71, 69, 84, SP, 47, CR, LF, CR, LF>>}
=============================================================================

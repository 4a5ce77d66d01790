----------------------------- MODULE ResponseMC -----------------------------
EXTENDS Response, FiniteSets, TLC
CONSTANTS MaxOps, Cache, Datas
VARIABLES snd, sent, flushed, pos, st, broken
vars == <<snd, sent, flushed, pos, st, broken>>
Fresh == [wire |-> <<>>, cache |-> <<>>, ended |-> FALSE]
Init == snd = Fresh /\ sent = <<>> /\ flushed = 0 /\ pos = 0 /\ broken = FALSE
        /\ st = [Init0 EXCEPT !.mode = "csize", !.first = TRUE, !.chunked = TRUE]
Send(d, f) == /\ ~snd.ended /\ Len(sent) < MaxOps
              /\ snd' = SendChunk(snd, d, f, Cache) /\ sent' = Append(sent, d)
              /\ flushed' = IF f THEN Len(sent') ELSE flushed
              /\ UNCHANGED <<pos, st, broken>>
End == ~snd.ended /\ snd' = EndChunks(snd) /\ flushed' = Len(sent) /\ UNCHANGED <<sent, pos, st, broken>>
Deliver == /\ ~broken /\ pos < Len(snd.wire)
           /\ \E n \in 1..(Len(snd.wire) - pos) : pos' = pos + n /\ st' = RunFast(st, SubSeq(snd.wire, pos + 1, pos + n), 1)
           /\ UNCHANGED <<snd, sent, flushed, broken>>
Break == ~broken /\ broken' = TRUE /\ UNCHANGED <<snd, sent, flushed, pos, st>>
Next == (\E d \in Datas, f \in BOOLEAN : Send(d, f)) \/ End \/ Deliver \/ Break
MCSpec == Init /\ [][Next]_vars
Faithful == IsPrefixOf(st.chunks, NonEmpty(sent))
DoneMeansAll == st.mode = "done" => snd.ended /\ st.chunks = NonEmpty(sent)
FlushedArrives == (pos = Len(snd.wire) /\ st.mode # "done") => Len(st.chunks) >= Len(NonEmpty(SubSeq(sent, 1, flushed)))
EndArrives == (snd.ended /\ pos = Len(snd.wire)) => st.mode = "done"
NeverAnError == st.mode \in {"csize", "cdata", "done"}
CacheBound == Len(snd.cache) <= Cache
MCDatas == {<<>>, <<97>>, <<CR, LF>>, <<48, CR, LF, CR, LF>>, [i \in 1..17 |-> 98]}
=============================================================================

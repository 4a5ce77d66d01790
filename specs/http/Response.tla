------------------------------ MODULE Response ------------------------------
(* A response: what the handler says, what goes over the wire, what the client makes of it.  The client's machine is that of Http.tla
   (a response is read as a request is, the code being where the path would be). *)
EXTENDS Http
RECURSIVE HexDigits(_)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexDigits(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexDigits(n \div 16) \o <<HexDigit(n % 16)>>
CRLF == <<CR, LF>>
Frame(d) == HexDigits(Len(d)) \o CRLF \o d \o CRLF
LastChunk == <<48>> \o CRLF \o CRLF
\* The chunked sender: s.wire has been given to the network, s.cache waits for being flushed.
SendChunk(s, d, flush, max) ==
  IF d = <<>> THEN IF flush THEN [s EXCEPT !.wire = @ \o s.cache, !.cache = <<>>] ELSE s
  ELSE LET f == Frame(d)
           s1 == IF flush \/ Len(f) > max - Len(s.cache) THEN [s EXCEPT !.wire = @ \o s.cache, !.cache = <<>>] ELSE s IN
       IF flush \/ Len(f) > max THEN [s1 EXCEPT !.wire = @ \o f] ELSE [s1 EXCEPT !.cache = @ \o f]
EndChunks(s) == [s EXCEPT !.wire = @ \o s.cache \o LastChunk, !.cache = <<>>, !.ended = TRUE]
NonEmpty(cs) == SelectSeq(cs, LAMBDA c : c # <<>>)
RECURSIVE ConcatR(_, _, _)
ConcatR(cs, a, z) == IF a > z THEN <<>> ELSE IF a = z THEN cs[a] ELSE LET m == (a + z) \div 2 IN ConcatR(cs, a, m) \o ConcatR(cs, m + 1, z)
Concat(cs) == ConcatR(cs, 1, Len(cs))
\* The lines of a text: none contains a newline; with their newlines they are the text, whose last line may lack its newline.
AreLinesOf(ls, s) == /\ \A i \in 1..Len(ls) : \A j \in 1..Len(ls[i]) : ls[i][j] # LF
                     /\ Concat([i \in 1..Len(ls) |-> Append(ls[i], LF)]) = (IF s = <<>> \/ s[Len(s)] = LF THEN s ELSE Append(s, LF))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================

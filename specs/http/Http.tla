-------------------------------- MODULE Http --------------------------------
(* How an HTTP message is read: a machine which takes one byte at a time.  Bytes are numbers 0..255, texts sequences of them.
   What it has understood after a prefix of the bytes does not depend on how these bytes were cut into packets. *)
EXTENDS Integers, Sequences
CR == 13   LF == 10   SP == 32   TAB == 9   COLON == 58
MaxPayload == 16777216
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Upper(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Canon(b) == IF b = 95 THEN 45 ELSE Lower(b)                       \* '_' and '-' are the same in names of headers
Map1(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
NameEq(a, b) == Len(a) = Len(b) /\ Map1(Canon, a) = Map1(Canon, b)
Blank(b) == b \in {SP, TAB}
IsSpace(b) == b \in {SP, TAB, 10, 11, 12, 13}
RECURSIVE TrimL(_, _), TrimR(_, _)
TrimL(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN TrimL(s, i + 1) ELSE i
TrimR(s, i) == IF i >= 1 /\ Blank(s[i]) THEN TrimR(s, i - 1) ELSE i
Trim(s) == LET a == TrimL(s, 1) IN SubSeq(s, a, TrimR(s, Len(s)))
RECURSIVE Find(_, _, _)
Find(s, b, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = b THEN i ELSE Find(s, b, i + 1)
\* The pieces of a line separated by white space.
RECURSIVE Pieces(_, _, _, _)
Pieces(s, i, cur, acc) ==
  IF i > Len(s) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF IsSpace(s[i]) THEN Pieces(s, i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE Pieces(s, i + 1, Append(cur, s[i]), acc)
Digit(b) == b >= 48 /\ b <= 57
Hex(b) == IF Digit(b) THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE 99
RECURSIVE Num(_, _, _)
Num(s, i, acc) == IF i > Len(s) THEN acc ELSE Num(s, i + 1, acc * 10 + (s[i] - 48))
RECURSIVE SkipZeros(_, _)
SkipZeros(s, i) == IF i < Len(s) /\ s[i] = 48 THEN SkipZeros(s, i + 1) ELSE SubSeq(s, i, Len(s))
\* Content-Length: its value, "big" when there are too many digits to matter, "any" when it is not a number (not specified).
ContentLength(v) ==
  IF v = <<>> THEN [k |-> "any", n |-> 0]
  ELSE IF \A i \in 1..Len(v) : Digit(v[i]) THEN
    LET d == SkipZeros(v, 1) IN IF Len(d) > 8 THEN [k |-> "big", n |-> 0] ELSE [k |-> "n", n |-> Num(d, 1, 0)]
  ELSE IF v[1] = 45 /\ Len(v) > 1 /\ v[2] \in 49..57 /\ (\A i \in 2..Len(v) : Digit(v[i])) THEN [k |-> "big", n |-> 0]   \* negative
  ELSE [k |-> "any", n |-> 0]
\* The size of a chunk: hexadecimal digits, then anything (an extension).
RECURSIVE HexRun(_, _)
HexRun(s, i) == IF i <= Len(s) /\ Hex(s[i]) < 16 THEN HexRun(s, i + 1) ELSE SubSeq(s, 1, i - 1)
RECURSIVE HexNum(_, _, _)
HexNum(s, i, acc) == IF i > Len(s) THEN acc ELSE HexNum(s, i + 1, acc * 16 + Hex(s[i]))
ChunkSize(s) ==
  LET h == HexRun(s, 1) z == SkipZeros(h, 1) IN
  IF h = <<>> THEN IF s[1] = 43 \/ IsSpace(s[1]) \/ (s[1] = 45 /\ Len(s) > 1 /\ s[2] = 48) THEN [k |-> "any", n |-> 0] ELSE [k |-> "bad", n |-> 0]
  ELSE IF h = <<48>> /\ Len(s) > 1 /\ s[2] \in {120, 88} THEN [k |-> "any", n |-> 0]
  ELSE IF Len(z) > 8 \/ (Len(z) = 8 /\ Hex(z[1]) > 7) THEN [k |-> "bad", n |-> 0]
  ELSE IF Len(z) > 6 THEN [k |-> "any", n |-> 0]                      \* enormous: depends on the memory there is
  ELSE [k |-> "n", n |-> HexNum(z, 1, 0)]

Post == <<80,79,83,84>>  Put == <<80,85,84>>  Patch == <<80,65,84,67,72>>
NeedsLength(m) == m \in {Post, Put, Patch}
ContentLengthName == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
TransferEncodingName == <<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103>>
Chunked == <<99,104,117,110,107,101,100>>
OverrideName == <<88,45,72,84,84,80,45,77,101,116,104,111,100,45,79,118,101,114,114,105,100,101>>

Init0 == [mode |-> "head", line |-> <<>>, first |-> FALSE, m |-> <<>>, p |-> <<>>, hs |-> <<>>, len |-> -1, chunked |-> FALSE,
          need |-> 0, body |-> <<>>, cur |-> <<>>, chunks |-> <<>>]
Final == {"done", "e400", "e411", "e413", "any", "stuck", "nourl"}

FirstLine(st, line) ==
  IF line = <<>> THEN st
  ELSE LET ps == Pieces(line, 1, <<>>, <<>>)
           s1 == [st EXCEPT !.first = TRUE, !.m = IF Len(ps) >= 1 THEN ps[1] ELSE <<>>, !.p = IF Len(ps) >= 2 THEN ps[2] ELSE <<>>] IN
       IF s1.p # <<>> /\ s1.p[1] \in {35, 63} THEN [s1 EXCEPT !.mode = "nourl"] ELSE s1
HeaderLine(st, line) ==
  LET c == Find(line, COLON, 1) IN
  IF c = 0 THEN st
  ELSE LET key == SubSeq(line, 1, c - 1)
           v == Trim(SubSeq(line, c + 1, Len(line)))
           s1 == [st EXCEPT !.hs = Append(@, <<key, v>>)] IN
       IF NameEq(key, ContentLengthName) THEN
         LET n == ContentLength(v) IN
         IF n.k = "any" THEN [s1 EXCEPT !.mode = "any"]
         ELSE IF n.k = "big" THEN [s1 EXCEPT !.mode = "e413"]
         ELSE IF n.n > MaxPayload THEN [s1 EXCEPT !.mode = "e413"]
         ELSE [s1 EXCEPT !.len = n.n]
       ELSE IF NameEq(key, OverrideName) THEN [s1 EXCEPT !.m = Map1(Upper, v)]
       ELSE IF NameEq(key, TransferEncodingName) /\ NameEq(v, Chunked) THEN [s1 EXCEPT !.chunked = TRUE]
       ELSE s1
EndOfHead(st) ==
  IF st.chunked THEN [st EXCEPT !.mode = "csize"]
  ELSE IF st.len = 0 THEN [st EXCEPT !.mode = "done"]
  ELSE IF st.len > 0 THEN [st EXCEPT !.mode = "body", !.need = st.len]
  ELSE IF NeedsLength(st.m) THEN [st EXCEPT !.mode = "e411"]
  ELSE [st EXCEPT !.mode = "done"]
SizeLine(st, line) ==
  IF line = <<>> THEN st
  ELSE LET n == ChunkSize(line) IN
       IF n.k = "any" THEN [st EXCEPT !.mode = "any"]
       ELSE IF n.k = "bad" THEN [st EXCEPT !.mode = "e400"]
       ELSE IF n.n = 0 THEN [st EXCEPT !.mode = "done"]
       ELSE [st EXCEPT !.mode = "cdata", !.need = n.n, !.cur = <<>>]
Line(st, line) ==
  LET s0 == [st EXCEPT !.line = <<>>] IN
  IF st.mode = "csize" THEN SizeLine(s0, line)
  ELSE IF ~st.first THEN FirstLine(s0, line)
  ELSE IF line = <<>> THEN EndOfHead(s0)
  ELSE HeaderLine(s0, line)
Step(st, b) ==
  CASE st.mode \in {"head", "csize"} ->
         IF b = 0 THEN [st EXCEPT !.mode = "stuck"]
         ELSE LET n == Len(st.line) IN
              IF b = LF /\ n > 0 /\ st.line[n] = CR THEN Line(st, SubSeq(st.line, 1, n - 1))
              ELSE [st EXCEPT !.line = Append(@, b)]
    [] st.mode = "body" ->
         [st EXCEPT !.body = Append(@, b), !.need = @ - 1, !.mode = IF st.need = 1 THEN "done" ELSE "body"]
    [] st.mode = "cdata" ->
         LET c == Append(st.cur, b) IN
         [st EXCEPT !.body = Append(@, b), !.need = @ - 1, !.cur = c,
                    !.mode = IF st.need = 1 THEN "csize" ELSE "cdata",
                    !.chunks = IF st.need = 1 THEN Append(@, c) ELSE @]
    [] OTHER -> st                                                     \* bytes after the message belong to nobody
RECURSIVE Run(_, _, _)
Run(st, s, i) == IF i > Len(s) \/ st.mode \in Final THEN st ELSE Run(Step(st, s[i]), s, i + 1)
\* The same, with the bytes of a body (or of a chunk) taken all at once; HttpMC checks that it is the same.
RECURSIVE RunFast(_, _, _), LineEnd(_, _)
LineEnd(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = CR /\ s[i + 1] = LF THEN i ELSE LineEnd(s, i + 1)
RunFast(st, s, i) ==
  IF i > Len(s) \/ st.mode \in Final THEN st
  ELSE IF st.mode \in {"body", "cdata"} THEN
    LET n == IF st.need < Len(s) - i + 1 THEN st.need ELSE Len(s) - i + 1
        c == SubSeq(s, i, i + n - 1) cur == st.cur \o c IN
    RunFast([st EXCEPT !.body = @ \o c, !.need = @ - n,
                   !.cur = IF st.mode = "cdata" THEN cur ELSE @,
                   !.mode = IF st.need = n THEN (IF st.mode = "body" THEN "done" ELSE "csize") ELSE @,
                   !.chunks = IF st.mode = "cdata" /\ st.need = n THEN Append(@, cur) ELSE @], s, i + n)
  ELSE LET e == LineEnd(s, i) IN
    IF st.line = <<>> /\ e > 0 /\ (\A j \in i..e : s[j] # 0) THEN RunFast(Line(st, SubSeq(s, i, e - 1)), s, e + 2)
    ELSE RunFast(Step(st, s[i]), s, i + 1)
Parse(s) == RunFast(Init0, s, 1)

\* What the headers are for the one who looks at them: one per name (the first spelling), in order, values joined.
CookieNames == {<<67,111,111,107,105,101>>, <<83,101,116,45,67,111,111,107,105,101>>}
IsCookie(n) == \E c \in CookieNames : NameEq(n, c)
AddHeader(acc, h) ==
  IF h[1] = <<>> \/ IsCookie(h[1]) THEN acc
  ELSE IF \E i \in 1..Len(acc) : NameEq(acc[i][1], h[1]) THEN
    LET i == CHOOSE j \in 1..Len(acc) : NameEq(acc[j][1], h[1]) IN
    IF h[2] = <<>> THEN acc ELSE [acc EXCEPT ![i][2] = IF @ = <<>> THEN h[2] ELSE @ \o <<44, 32>> \o h[2]]
  ELSE Append(acc, h)
RECURSIVE Headers(_, _, _)
Headers(hs, i, acc) == IF i > Len(hs) THEN acc ELSE Headers(hs, i + 1, AddHeader(acc, hs[i]))
\* Cookies: pieces between ';', name up to the first '=', both without surrounding white space; the first of a name counts.
RECURSIVE STrimL(_, _), STrimR(_, _)
STrimL(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN STrimL(s, i + 1) ELSE i
STrimR(s, i) == IF i >= 1 /\ IsSpace(s[i]) THEN STrimR(s, i - 1) ELSE i
STrim(s) == LET a == STrimL(s, 1) IN SubSeq(s, a, STrimR(s, Len(s)))
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(s, b, i, cur, acc) == IF i > Len(s) THEN Append(acc, cur) ELSE IF s[i] = b THEN SplitAt(s, b, i + 1, <<>>, Append(acc, cur)) ELSE SplitAt(s, b, i + 1, Append(cur, s[i]), acc)
CookiePair(q) == LET e == Find(q, 61, 1) IN <<STrim(SubSeq(q, 1, e - 1)), STrim(SubSeq(q, e + 1, Len(q)))>>
CookiesOf(v) == LET ps == SplitAt(v, 59, 1, <<>>, <<>>) IN
  SelectSeq([i \in 1..Len(ps) |-> IF Find(ps[i], 61, 1) = 0 THEN <<>> ELSE CookiePair(ps[i])], LAMBDA x : x # <<>>)
RECURSIVE FlatCookies(_, _, _)
FlatCookies(hs, i, acc) == IF i > Len(hs) THEN acc ELSE FlatCookies(hs, i + 1, IF IsCookie(hs[i][1]) THEN acc \o CookiesOf(hs[i][2]) ELSE acc)
CookieSet(hs) == LET f == FlatCookies(hs, 1, <<>>) IN { f[i] : i \in { j \in 1..Len(f) : \A k \in 1..(j - 1) : f[k][1] # f[j][1] } }
=============================================================================

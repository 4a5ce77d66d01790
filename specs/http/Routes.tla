------------------------------- MODULE Routes -------------------------------
(* The routes of an HTTP server: (path, number of arguments) -> handler.  A request goes to the longest path which, with the rest of the
   request's path as its arguments, is registered for that many.  Texts are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets
Slash == 47
MaxArgs == 15
RECURSIVE TrimSlashes(_)
TrimSlashes(p) == IF Len(p) > 1 /\ p[Len(p)] = Slash THEN TrimSlashes(SubSeq(p, 1, Len(p) - 1)) ELSE p
RECURSIVE LastSlash(_, _)
LastSlash(p, i) == IF i = 0 THEN 0 ELSE IF p[i] = Slash THEN i ELSE LastSlash(p, i - 1)
HexVal(b) == IF b >= 48 /\ b <= 57 THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE 99
RECURSIVE Decode(_, _)
Decode(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 43 THEN <<32>> \o Decode(s, i + 1)
  ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal(s[i + 1]) < 16 /\ HexVal(s[i + 2]) < 16
       THEN <<HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])>> \o Decode(s, i + 3)
  ELSE <<s[i]>> \o Decode(s, i + 1)
\* routes: a set of [p, n, id, r] (r tells registrations apart).
None == [found |-> FALSE]
RECURSIVE MatchFrom(_, _, _)
MatchFrom(routes, rem, args) ==
  LET p == TrimSlashes(rem)
      hit == { x \in routes : x.p = p /\ x.n = Len(args) } IN
  IF hit # {} THEN LET x == CHOOSE y \in hit : TRUE IN [found |-> TRUE, id |-> x.id, r |-> x.r, args |-> args, base |-> p]
  ELSE IF p = <<Slash>> THEN None
  ELSE LET s == LastSlash(p, Len(p)) IN MatchFrom(routes, SubSeq(p, 1, s), <<Decode(SubSeq(p, s + 1, Len(p)), 1)>> \o args)
\* What comes after the path, '?' or '#', is not a part of it.
RECURSIVE PathPart(_, _)
PathPart(p, i) == IF i > Len(p) THEN p ELSE IF p[i] \in {63, 35} THEN SubSeq(p, 1, i - 1) ELSE PathPart(p, i + 1)
Match(routes, path) == LET p == PathPart(path, 1) IN IF p = <<>> \/ p[1] # Slash THEN None ELSE MatchFrom(routes, p, <<>>)
HadSlash(path) == LET p == PathPart(path, 1) IN p # <<>> /\ p[Len(p)] = Slash
\* The same, said differently: of the registered ones, the longest path that fits.  (RoutesMC checks that these agree.)
RECURSIVE Components(_, _, _)
Components(p, cur, acc) == IF p = <<>> THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
                           ELSE IF p[1] = Slash THEN Components(Tail(p), <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
                           ELSE Components(Tail(p), Append(cur, p[1]), acc)
Fits(x, path) == LET c == Components(path, <<>>, <<>>) b == Components(x.p, <<>>, <<>>) IN
  Len(c) = Len(b) + x.n /\ SubSeq(c, 1, Len(b)) = b
Bit(mask, n) == (mask \div (2 ^ n)) % 2 = 1
Arities(mask) == { n \in 0..MaxArgs : Bit(mask, n) }
Valid(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {47, 45, 46, 95, 126, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64}
RegResult(routes, p, mask, upd) ==
  IF p = <<>> \/ p[1] # Slash THEN "noslash"
  ELSE IF p # <<Slash>> /\ p[Len(p)] = Slash THEN "endslash"
  ELSE IF \E i \in 1..Len(p) : ~Valid(p[i]) THEN "chars"
  ELSE IF upd THEN IF \A n \in Arities(mask) : \E x \in routes : x.p = p /\ x.n = n THEN "ok" ELSE "missing"
  ELSE IF \E n \in Arities(mask) : \E x \in routes : x.p = p /\ x.n = n THEN "exists" ELSE "ok"
Removed(routes, p, mask) == { x \in routes : x.p = p /\ x.n \in Arities(mask) }
Registered(routes, p, mask, id, r) == (routes \ Removed(routes, p, mask)) \cup { [p |-> p, n |-> n, id |-> id, r |-> r] : n \in Arities(mask) }
PathCount(routes) == Cardinality({ x.p : x \in routes })
=============================================================================

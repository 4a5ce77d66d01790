------------------------------- MODULE RestMC -------------------------------
EXTENDS Rest, Json
CONSTANTS Conts, Rows, Cols, Vals, Impls, MaxReq
VARIABLES last, n, hist
vars == <<rvars, last, n, hist>>
Own(c, v) == IF c = "Du" THEN <<v, 0>> ELSE IF c \in {"Moo", "Ouu", "Noo"} THEN <<v \div 3, v % 3>> ELSE <<>>
Key(c) == IF c \in DictNames THEN Rows \X {0} ELSE Rows \X Cols
NoBody == [kind |-> "none", key |-> <<0, 0>>, v |-> 0]
NoIus == [kind |-> "none", us |-> 0]
Q == [impl |-> "plain", kind |-> "data", verb |-> "GET", c |-> "Du", tgt |-> "all", keyed |-> FALSE, key |-> <<0, 0>>, body |-> NoBody,
      ius |-> NoIus, over |-> FALSE, exp |-> "no", page |-> <<0, 10>>, name |-> "", mv |-> <<0, 0, 0>>]
Bodies(c) == {NoBody, [NoBody EXCEPT !.kind = "bad"]} \cup [kind : {"ok"}, key : Key(c), v : Vals]
Patches(c) == {[NoBody EXCEPT !.kind = "bad"]} \cup [kind : {"ok"}, key : {<<0, 0>>}, v : Vals \cup {-1}] \cup [kind : {"rekey"}, key : Key(c), v : {-1} \cup Vals]
\* Relative to when the element was modified.
Iuses(c, key) == {NoIus} \cup IF key \in DOMAIN Get(lm, c) THEN {[kind |-> "at", us |-> Get(lm, c)[key] + d] : d \in {-1, 0}} ELSE {}
Requests ==
  UNION {UNION {
    {[Q EXCEPT !.c = c, !.impl = i, !.keyed = b, !.key = k, !.exp = x] : b \in {TRUE, FALSE}, k \in Key(c), x \in {"no", "detailed"}},
    {[Q EXCEPT !.c = c, !.impl = i, !.tgt = t, !.keyed = b, !.key = <<k[IF t = "row" THEN 1 ELSE 2], 0>>] : t \in {x \in {"row", "col"} : c \notin DictNames}, b \in {TRUE, FALSE}, k \in Key(c)},
    {[Q EXCEPT !.c = c, !.impl = i, !.verb = "POST", !.body = b, !.over = o] : b \in Bodies(c), o \in {TRUE, FALSE}},
    UNION {{[Q EXCEPT !.c = c, !.impl = i, !.verb = "PUT", !.keyed = TRUE, !.key = k, !.body = b, !.ius = u] : b \in Bodies(c), u \in Iuses(c, k)} : k \in Key(c)},
    UNION {{[Q EXCEPT !.c = c, !.impl = i, !.verb = "PATCH", !.keyed = TRUE, !.key = k, !.body = b, !.ius = u] : b \in Patches(c), u \in Iuses(c, k)} : k \in Key(c)},
    UNION {{[Q EXCEPT !.c = c, !.impl = i, !.verb = "DELETE", !.keyed = TRUE, !.key = k, !.ius = u] : u \in Iuses(c, k)} : k \in Key(c)},
    IF c # "Du" THEN {} ELSE {[Q EXCEPT !.impl = i, !.kind = "command", !.verb = "PUT", !.name = "move", !.mv = <<f, t, b>>] : f \in Rows, t \in Rows, b \in {0, 1}}
    } : c \in Conts, i \in Impls}
\* The journal entry which these steps make.
RECURSIVE Sequenced(_, _, _)
Sequenced(c, ss, us) ==
  IF ss = <<>> THEN <<>>
  ELSE LET ps == SetToSortSeq(ss[1], LAMBDA a, b : (a.t = "D" /\ b.t = "U") \/ (a.t = b.t /\ KeyLess(a.key, b.key)))
       IN [i \in 1..Len(ps) |-> [c |-> c, t |-> ps[i].t, key |-> ps[i].key, v |-> ps[i].v, us |-> us + i]] \o Sequenced(c, Tail(ss), us + Len(ps))
Entry(q) == LET ss == Does(q) ms == Sequenced(Where(q), ss, clock + 1)
            IN IF ss = <<>> THEN <<>> ELSE <<[begin |-> clock + 1, muts |-> ms, end |-> clock + 2 + Len(ms), us |-> clock + 3 + Len(ms), meta |-> <<>>]>>
MCInit == RestInit /\ last = [q |-> Q, a |-> E] /\ n = 0 /\ hist = <<>>
Do(q) == Serve(q, Entry(q)) /\ last' = [q |-> q, a |-> Answer(q)]
Rel(q) == [q EXCEPT !.ius = IF @.kind = "at" THEN [kind |-> "at", us |-> @.us - Get(lm, q.c)[q.key]] ELSE @]
Next(h) == n < MaxReq /\ n' = n + 1
           /\ \/ \E q \in Requests : Do(q) /\ hist' = (IF h THEN Append(hist, Rel(q)) ELSE hist)
              \/ Demote /\ master /\ UNCHANGED last /\ hist' = (IF h THEN Append(hist, [kind |-> "follow"]) ELSE hist)
              \/ Promote /\ ~master /\ UNCHANGED last /\ hist' = (IF h THEN Append(hist, [kind |-> "master"]) ELSE hist)
MCSpec == MCInit /\ [][Next(FALSE)]_vars
GenSpec == MCInit /\ [][Next(TRUE)]_vars
\* What matters of a state: what there is, what has been modified, and the order of the modifications.
GenView == <<ent, [c \in DOMAIN lm |-> DOMAIN lm[c]], master, n>>
GenPrint == PrintT("GEN " \o ToJson(hist'))
---------------------------------------------------------------------------
ErrorsChangeNothing == [][last' # last /\ last'.a.code >= 400 => UNCHANGED <<ent, lm, journal>>]_vars
ReadsChangeNothing == [][last' # last /\ last'.q.verb = "GET" => UNCHANGED <<ent, lm, journal>>]_vars
FollowersChangeNothing == [][~master => UNCHANGED <<ent, lm, journal>>]_vars
\* A change is a change of the element addressed, and of what could not stay with it.
Addressed(q, a) == IF q.verb = "POST" THEN a.url ELSE q.key
OnlyTheAddressed ==
  [][last' # last /\ last'.q.kind = "data" /\ last'.q.impl = "simple" =>
       LET q == last'.q key == IF last'.a.url # <<>> THEN last'.a.url ELSE q.key IN
       /\ \A c \in Conts \ {q.c} : Get(ent', c) = Get(ent, c)
       /\ \A k \in DOMAIN Get(ent, q.c) \ {key} : \/ k \in DOMAIN Get(ent', q.c) /\ Get(ent', q.c)[k] = Get(ent, q.c)[k]
                                                  \/ k \in Conflicts(q.c, Get(ent, q.c), key)
       /\ DOMAIN Get(ent', q.c) \subseteq DOMAIN Get(ent, q.c) \cup {key}
       /\ Ok(last'.a) => CASE q.verb = "PUT" -> Get(ent', q.c)[key] = q.body.v
                           [] q.verb = "POST" -> Get(ent', q.c)[key] = q.body.v
                           [] q.verb = "DELETE" -> key \notin DOMAIN Get(ent', q.c)
                           [] OTHER -> TRUE]_vars
\* The views agree: the rows (the columns) together are the collection, and so are the records.
RangeOf(s) == {s[i] : i \in 1..Len(s)}
ViewsAgree ==
  \A c \in Conts, i \in Impls :
    LET q == [Q EXCEPT !.c = c, !.impl = "plain"]
        all == RangeOf(Read(q).data)
    IN /\ \A k \in Key(c) : LET a == Read([q EXCEPT !.keyed = TRUE, !.key = k]) IN
                            IF a.code = 200 THEN RangeOf(a.data) = {x \in all : x[1] = k} /\ a.data # <<>> ELSE \A x \in all : x[1] # k
       /\ c \notin DictNames =>
            \A t \in {"row", "col"} :
              LET ls == Read([q EXCEPT !.tgt = t]).data IN
              /\ UNION {RangeOf(Read([q EXCEPT !.tgt = t, !.keyed = TRUE, !.key = ls[j][1]]).data) : j \in 1..Len(ls)} = all
              /\ \A j \in 1..Len(ls) : Len(Read([q EXCEPT !.tgt = t, !.keyed = TRUE, !.key = ls[j][1]]).data) = ls[j][2]
\* The pages, each after the one before, are everything, once; back from the last one there is a way to the first.
RECURSIVE Walk(_, _)
Walk(q, total) == LET g == PageOf(q, total)
                      here == [i \in 1..g.n |-> g.i + i]
                  IN IF g.next = <<>> THEN here
                     \* (the last page may begin within the one before)
                     ELSE LET rest == Walk([q EXCEPT !.page = g.next[1]], total) IN
                          here \o SubSeq(rest, g.i + g.n - g.next[1][1] + 1, Len(rest))
PagesAgree == n = 0 => \A total \in 0..9, k \in 1..5 :
  /\ Walk([Q EXCEPT !.page = <<0, k>>], total) = [i \in 1..total |-> i]
  /\ \A i \in 0..10 : LET g == PageOf([Q EXCEPT !.page = <<i, k>>], total) IN
       /\ g.i + g.n <= total
       /\ g.prev # <<>> => g.prev[1][1] < i /\ g.prev[1][1] + k >= g.i
MCJournal == Replay(Nothing, journal) = <<ent, lm>>
=============================================================================

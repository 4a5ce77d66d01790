-------------------------------- MODULE Rest --------------------------------
(* The REST interface of a storage.  A request is judged by the state of the storage alone: `Answer` is what it is answered with,
   `Does` what it does to the storage.

   A request q:  impl "plain" | "simple" | "hyper" (the latter two are structured: what is asked for comes with where it is);  kind "data" | "query" | "command" | "status" | "top" | "schema" | "none" (no such route);
     verb;  c: the container;  tgt "all" | "row" | "col";  keyed, key: the key given by the URL, in whatever form (a row or a column: <<key, 0>>);
     body: kind "ok" | "bad" | "none" | "rekey" (a patch which names a key), key, v (-1: not named);
     ius: kind "none" | "at" | "bad", us: nothing has changed the element after that;  over: `overwrite` is given;
     exp "no" | "plain" | "detailed": an export is asked for (the structured REST, everything only from a storage which follows);
     page: <<the first element, the page size>> (hyper only);
     name, mv: the name of a query or a command, and what it is about.
   Rows and columns are read only.                                                                                             *)
EXTENDS Storage
CONSTANT OwnKey(_, _)     \* The key an element chooses for itself when it is POST-ed: <<>> if it does not.
VARIABLES master, up
rvars == <<svars, master, up>>
RestInit == Init /\ master = TRUE /\ up = TRUE

E == [code |-> 0, data |-> <<>>, url |-> <<>>, lm |-> FALSE, text |-> "", lms |-> <<>>, paged |-> FALSE]
Structured(q) == q.impl # "plain"
Err(code) == [E EXCEPT !.code = code]
Of(c) == Get(ent, c)
\* What a set of elements looks like: plain REST shows them, the simple one refers to them, hypermedia shows a page of them.
Listed(q, ks) == LET s == Sorted(ks) IN [i \in 1..Len(s) |-> <<s[i], IF q.impl # "simple" THEN Of(q.c)[s[i]] ELSE -1>>]
Along(q) == IF q.tgt = "row" THEN 1 ELSE 2
Lines(q) == LET f == Of(q.c)
                o == SetToSortSeq({k[Along(q)] : k \in DOMAIN f}, Less)
            IN [i \in 1..Len(o) |-> <<<<o[i], 0>>, IF q.impl # "simple" THEN Cardinality({k \in DOMAIN f : k[Along(q)] = o[i]}) ELSE -1>>]
Record(q, code, key) == [E EXCEPT !.code = code, !.lm = Structured(q), !.url = IF Structured(q) THEN key ELSE <<>>]
Has(q) == q.key \in DOMAIN Of(q.c)
Export(q) ==
  IF q.keyed /\ ~Has(q) THEN Err(404)
  ELSE IF ~q.keyed /\ master THEN Err(403)
  ELSE LET ks == IF q.keyed THEN {q.key} ELSE DOMAIN Of(q.c)
           s == Sorted(ks)
       IN [E EXCEPT !.code = 200, !.data = [i \in 1..Len(s) |-> <<s[i], Of(q.c)[s[i]]>>],
                    !.lms = IF q.exp = "detailed" THEN [i \in 1..Len(s) |-> Get(lm, q.c)[s[i]]] ELSE <<>>]
Read(q) ==
  IF Structured(q) /\ q.exp # "no" /\ q.tgt = "all" THEN Export(q)
  ELSE IF q.tgt = "all"
  THEN IF ~q.keyed THEN [E EXCEPT !.code = 200, !.data = Listed(q, DOMAIN Of(q.c)), !.paged = q.impl = "hyper"]
       ELSE IF Has(q) THEN [Record(q, 200, q.key) EXCEPT !.data = <<<<q.key, Of(q.c)[q.key]>>>>] ELSE Err(404)
  ELSE IF ~q.keyed THEN [E EXCEPT !.code = 200, !.data = Lines(q), !.paged = q.impl = "hyper"]
       ELSE LET ks == {k \in DOMAIN Of(q.c) : k[Along(q)] = q.key[1]} IN
            IF ks = {} THEN Err(404) ELSE [E EXCEPT !.code = 200, !.data = Listed(q, ks), !.paged = q.impl = "hyper"]
\* What the header says is respected by the structured REST only.
BadHeader(q) == Structured(q) /\ q.ius.kind = "bad"
TooLate(q) == Structured(q) /\ q.ius.kind = "at" /\ Has(q) /\ Get(lm, q.c)[q.key] > q.ius.us
Post(q) ==
  LET key == OwnKey(q.c, q.body.v) IN
  CASE q.keyed -> Err(400)
    [] ~q.keyed /\ q.body.kind # "ok" -> Err(400)
    [] ~q.keyed /\ q.body.kind = "ok" /\ key = <<>> -> Err(405)
    [] OTHER -> IF key \in DOMAIN Of(q.c) /\ ~q.over THEN Err(409) ELSE [Record(q, 201, key) EXCEPT !.url = key]
Put(q) ==
  CASE BadHeader(q) \/ ~q.keyed \/ q.body.kind # "ok" -> Err(400)
    [] OTHER -> IF q.body.key # q.key THEN Err(400)
                ELSE IF TooLate(q) THEN Err(412)
                ELSE Record(q, IF Has(q) THEN 200 ELSE 201, q.key)
Patch(q) ==
  CASE BadHeader(q) \/ ~q.keyed -> Err(400)
    [] OTHER -> IF ~Has(q) THEN Err(404)
                ELSE IF TooLate(q) THEN Err(412)
                ELSE IF q.body.kind \notin {"ok", "rekey"} \/ (q.body.kind = "rekey" /\ q.body.key # q.key) THEN Err(400)
                ELSE Record(q, 200, q.key)
Delete(q) ==
  CASE BadHeader(q) \/ ~q.keyed -> Err(400)
    [] OTHER -> IF TooLate(q) THEN Err(412) ELSE [E EXCEPT !.code = 200, !.lm = Structured(q) /\ Has(q)]
Data(q) ==
  IF q.tgt # "all" THEN IF q.verb = "GET" THEN Read(q) ELSE Err(405)
  ELSE CASE q.verb = "GET" -> Read(q)
         [] q.verb = "POST" /\ master -> Post(q)
         [] q.verb = "PUT" /\ master -> Put(q)
         [] q.verb = "PATCH" /\ master -> Patch(q)
         [] q.verb = "DELETE" /\ master -> Delete(q)
         [] OTHER -> Err(405)
\* The query asks whether there is an element, the command moves one from mv[1] to mv[2] and is rolled back if mv[3] is not zero.
Du == Get(ent, "Du")
Query(q) == CASE q.name = "" -> Err(404)
              [] q.name # "" /\ q.verb # "GET" -> Err(405)
              [] q.name # "" /\ q.verb = "GET" /\ q.name # "has" -> Err(404)
              [] OTHER -> IF q.body.kind = "bad" THEN Err(400)
                          ELSE [Err(200) EXCEPT !.text = IF <<q.mv[1], 0>> \in DOMAIN Du THEN "yes" ELSE "no"]
Command(q) == CASE ~master -> Err(503)
                [] master /\ q.verb \notin {"POST", "PUT", "PATCH"} -> Err(405)
                [] master /\ q.verb \in {"POST", "PUT", "PATCH"} /\ q.name # "move" -> Err(404)
                [] OTHER -> IF q.body.kind = "bad" THEN Err(400)
                            ELSE IF <<q.mv[1], 0>> \notin DOMAIN Du THEN [Err(404) EXCEPT !.text = "nothing"]
                            ELSE IF q.mv[3] # 0 THEN [Err(400) EXCEPT !.text = "rolled back"] ELSE [Err(200) EXCEPT !.text = "moved"]
Answer(q) ==
  CASE q.kind = "none" -> Err(404)
    [] q.kind \in {"status", "top"} -> IF q.impl = "plain" THEN Err(404) ELSE [Err(IF up THEN 200 ELSE 503) EXCEPT !.text = IF up THEN "up" ELSE "down"]
    [] q.kind \notin {"none", "status", "top"} /\ ~up -> Err(503)
    [] OTHER -> CASE q.kind = "data" -> Data(q)
                  [] q.kind = "query" -> Query(q)
                  [] q.kind = "command" -> Command(q)
                  [] OTHER -> [Err(200) EXCEPT !.text = "schema"]
Ok(a) == a.code < 300
\* A sequence of sets of primitive mutations, the steps of the transaction.
Does(q) ==
  LET a == Answer(q) IN
  IF ~Ok(a) THEN <<>>
  ELSE CASE q.kind = "data" /\ q.verb = "POST" -> <<Prims(q.c, "add", OwnKey(q.c, q.body.v), q.body.v)>>
         [] q.kind = "data" /\ q.verb = "PUT" -> <<Prims(q.c, "add", q.key, q.body.v)>>
         [] q.kind = "data" /\ q.verb = "PATCH" -> <<Prims(q.c, "add", q.key, IF q.body.v = -1 THEN Of(q.c)[q.key] ELSE q.body.v)>>
         [] q.kind = "data" /\ q.verb = "DELETE" -> IF Has(q) THEN <<Prims(q.c, "erase", q.key, 0)>> ELSE <<>>
         [] q.kind = "command" -> LET v == Du[<<q.mv[1], 0>>] IN <<{D(<<q.mv[1], 0>>)}, {U(<<q.mv[2], 0>>, v)}>>
         [] OTHER -> <<>>
Where(q) == IF q.kind = "command" THEN "Du" ELSE q.c
RECURSIVE Total(_)
Total(ss) == IF ss = <<>> THEN 0 ELSE Cardinality(ss[1]) + Total(Tail(ss))
\* The journalled mutations are these steps: within a step the evictions, in any order, come before the addition.
RECURSIVE Steps(_, _, _)
Steps(c, ms, ss) ==
  IF ss = <<>> THEN ms = <<>>
  ELSE LET n == Cardinality(ss[1]) IN
       /\ Len(ms) >= n
       /\ {ms[i] : i \in 1..n} = {[c |-> c, t |-> p.t, key |-> p.key, v |-> p.v, us |-> ms[CHOOSE i \in 1..n : ms[i].key = p.key].us] :
                                   p \in {p \in ss[1] : \E i \in 1..n : ms[i].key = p.key}}
       /\ \A p \in ss[1] : p.t = "U" => ms[n].key = p.key
       /\ Steps(c, SubSeq(ms, n + 1, Len(ms)), Tail(ss))
\* A request is served; js are the journal entries which appear by then.
Serve(q, js) ==
  LET ss == Does(q) IN
  IF ss = <<>> THEN js = <<>> /\ UNCHANGED rvars
  ELSE /\ Len(js) = 1
       /\ LET y == js[1] s == ApplyAll(<<ent, lm>>, y.muts) IN
          /\ Len(y.muts) = Total(ss)
          /\ Steps(Where(q), y.muts, ss)
          /\ clock < y.begin /\ y.begin < y.muts[1].us /\ y.muts[Len(y.muts)].us < y.end /\ y.end < y.us
          /\ \A i \in 1..(Len(y.muts) - 1) : y.muts[i].us < y.muts[i + 1].us
          /\ ent' = s[1] /\ lm' = s[2] /\ clock' = y.us
          /\ journal' = Append(journal, y)
       /\ UNCHANGED <<tx, down, master, up>>
\* A page of what there is: where it begins, how long it is, and the pages before and after it, if there is anything there.
Less2(a, b) == IF a < b THEN a ELSE b
NoPage == [i |-> 0, n |-> 0, total |-> 0, asked |-> <<>>, prev |-> <<>>, next |-> <<>>]
PageOf(q, total) ==
  LET i == Less2(q.page[1], total)
      n == q.page[2]
  IN [i |-> i, n |-> Less2(n, total - i), total |-> total, asked |-> <<i, n>>,
      prev |-> IF q.page[1] > 0 /\ total > 0 THEN <<<<IF i >= n THEN i - n ELSE 0, n>>>> ELSE <<>>,
      next |-> IF i + n < total THEN <<<<IF i + 2 * n > total THEN total - n ELSE i + n, n>>>> ELSE <<>>]
\* Some of `all`, n of them, the first ones after i if they are ordered.
Some(all, i, n, ordered, data) ==
  /\ Len(data) = n
  /\ IF ordered THEN data = SubSeq(all, i + 1, i + n)
     ELSE {data[j] : j \in 1..n} \subseteq {all[j] : j \in 1..Len(all)} /\ Cardinality({data[j] : j \in 1..n}) = n
Paged(q, all, r) ==
  LET g == PageOf(q, Len(all)) IN
  /\ r.page = g
  /\ Some(all, g.i, g.n, r.ordered, r.data)
  \* Of a row (a column) up to three elements are shown.
  /\ IF q.tgt = "all" \/ q.keyed THEN r.pre = <<>>
     ELSE /\ Len(r.pre) = Len(r.data)
          /\ \A j \in 1..Len(r.pre) :
               LET s == Listed(q, {k \in DOMAIN Of(q.c) : k[Along(q)] = r.data[j][1][1]})
               IN Some(s, 0, Less2(3, Len(s)), r.preordered, r.pre[j])
\* The response: code, elements or references to them, the text, the reference to the element, the time it was modified, `success`.
Shown(q, r) ==
  LET a == Answer(q) IN
  /\ r.code = a.code
  /\ IF a.paged THEN Paged(q, a.data, r) ELSE r.data = a.data /\ r.page = NoPage
  /\ r.text = a.text
  /\ r.url = a.url
  /\ r.lms = a.lms
  /\ r.ok # IF Ok(a) THEN 0 ELSE 1
  /\ IF a.lm THEN LET t == Get(lm', q.c)[IF a.url = <<>> THEN q.key ELSE a.url] IN r.lm = t /\ r.lmd = t \div 1000000
     ELSE r.lm = -1 /\ r.lmd = -1
Demote == master' = FALSE /\ up' = TRUE /\ LET s == Replay(Nothing, journal) IN ent' = s[1] /\ lm' = s[2] /\ UNCHANGED <<tx, journal, clock, down>>
Promote == master' = TRUE /\ UNCHANGED <<svars, up>>
TakeDown == up' = FALSE /\ UNCHANGED <<svars, master>>
=============================================================================

-------------------------------- MODULE Flip --------------------------------
(* Streams which follow one another, and take over from one another (MasterFlipController of stream/replicator.h).

   ns    node -> [log, head, role: "master" (accepts entries) / "follow" (of the node `to`) / "ex" (was the master, gave it away; follows nobody),
         "hold" (has refused to give it away and is about to accept entries again: the answer is sent first),
         to, exp: the restrictions under which it may be taken over (None: it is not exposed), until, delay: blocked after a wrong key, cb: the callbacks called]
   p     thread -> the call which is being executed                 acc  what was accepted by a master, in order (an observer's view)
   lossy: connections may break at any time                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N, Threads, Lossy,
         Slip  \* how much later than the beginning of a call the clocks may be read
VARIABLES ns, p, acc
fvars == <<ns, p, acc>>
Nodes == 1..N
None == [o |-> ""]
Nothing == 0 - 1
Second == 1000000
Digits(n) == Len(ToString(n))
Bytes(log, i) == Len("{'index':,'us':}") + Digits(i) + 16 + 1 + Len(log[i + 1].j) + 1
\* the text of a difference exceeds the limit at some entry
RECURSIVE SumBytes(_, _, _)
SumBytes(log, a, b) == IF a >= b THEN 0 ELSE Bytes(log, a) + SumBytes(log, a + 1, b)
FirstAt(log, ts) == LET S == {i \in 1..Len(log) : log[i].us >= ts} IN IF S = {} THEN Len(log) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Fresh(role, to) == [log |-> <<>>, head |-> Nothing, role |-> role, to |-> to, exp |-> None, until |-> 0, delay |-> Second, cb |-> <<0, 0, 0>>]
Cb(s, m, k) == [s EXCEPT ![m].cb[k] = @ + 1]
No(s) == [ok |-> FALSE, s |-> s, next |-> 0, lost |-> FALSE]
\* `m` is asked to give way to somebody with `size` entries and the head `hd`: a: [size, hd, key (the node whose key it is), clk]
RECURSIVE Ask(_, _, _, _)
Ask(s, m, a, now) ==
  LET x == s[m] IN
  IF x.exp = None THEN No(s)
  ELSE IF a.hd > x.head \/ a.size > Len(x.log) \/ (x.log # <<>> /\ FirstAt(x.log, a.hd + 1) # a.size) THEN No(s)
  ELSE IF x.role = "ex" THEN No(s)
  ELSE IF now < x.until THEN No(s)
  ELSE IF x.exp.clock > 0 /\ (a.clk = Nothing \/ a.clk > now + x.exp.clock \/ a.clk < now - x.exp.clock) THEN No(s)
  ELSE
  LET r == IF x.role = "follow" THEN Ask(s, x.to, [size |-> Len(x.log), hd |-> x.head, key |-> a.key, clk |-> now], now) ELSE [ok |-> a.key = m, s |-> s]
      t == IF x.role = "follow" THEN (IF r.ok THEN [r.s EXCEPT ![m].log = r.s[x.to].log, ![m].head = r.s[x.to].head, ![m].role = "master", ![m].to = 0] ELSE r.s)
           ELSE IF r.ok THEN s ELSE [s EXCEPT ![m].until = now + x.delay, ![m].delay = 2 * @]
      y == t[m]
      e == y.exp
      many == \/ e.idx > 0 /\ Len(y.log) > a.size + e.idx
              \/ e.head > 0 /\ y.head > a.hd /\ ((a.hd < 0 /\ y.head >= 0) \/ y.head > a.hd + e.head)
              \/ e.size > 0 /\ SumBytes(y.log, a.size, Len(y.log)) > e.size
  IN IF ~r.ok THEN No(t)
     ELSE IF many THEN No([Cb(t, m, 1) EXCEPT ![m].role = "hold"])
     ELSE [ok |-> TRUE, s |-> [Cb(Cb(t, m, 1), m, 2) EXCEPT ![m].role = "ex"], next |-> a.size]
RestoreAll(s) == [n \in Nodes |-> IF s[n].role = "hold" THEN Cb([s EXCEPT ![n].role = "master"], n, 3)[n] ELSE s[n]]
Restore == (\E n \in Nodes : ns[n].role = "hold") /\ ns' = RestoreAll(ns) /\ UNCHANGED <<p, acc>>
\* everything else waits for that
Free == \A n \in Nodes : ns[n].role # "hold"
\* ---------------------------------------------------------------- calls
Call(t, x) == p[t] = None /\ p' = [p EXCEPT ![t] = [s |-> "new"] @@ x] /\ UNCHANGED <<ns, acc>>
Ret(t, r) == p[t] # None /\ p[t].s = "ret" /\ p[t].r = r /\ p' = [p EXCEPT ![t] = None] /\ UNCHANGED <<ns, acc>>
At(t, o) == p[t] # None /\ p[t].o = o /\ p[t].s = "new"
Done(t, r) == p' = [p EXCEPT ![t] = [@ EXCEPT !.s = "ret"] @@ [r |-> r]]
Publish(t) ==
  /\ \E o \in {"pub", "head"} : At(t, o)
  /\ LET x == p[t] y == ns[x.n] IN
     IF y.role # "master" THEN Done(t, "refused") /\ UNCHANGED <<ns, acc>>
     ELSE IF x.us <= y.head THEN Done(t, "late") /\ UNCHANGED <<ns, acc>>
     ELSE /\ Done(t, "ok")
          /\ ns' = [ns EXCEPT ![x.n].head = x.us, ![x.n].log = IF x.o = "pub" THEN Append(@, [us |-> x.us, j |-> x.j]) ELSE @]
          /\ acc' = IF x.o = "pub" THEN Append(acc, [us |-> x.us, j |-> x.j]) ELSE acc
Expose(t) == /\ At(t, "expose") /\ UNCHANGED acc
             /\ IF ns[p[t].n].exp # None THEN Done(t, "already") /\ UNCHANGED ns
                ELSE Done(t, "ok") /\ ns' = [ns EXCEPT ![p[t].n].exp = p[t].x, ![p[t].n].until = 0, ![p[t].n].delay = Second]
Unexpose(t) == /\ At(t, "unexpose") /\ UNCHANGED acc
               /\ IF ns[p[t].n].exp = None THEN Done(t, "not") /\ UNCHANGED ns ELSE Done(t, "ok") /\ ns' = [ns EXCEPT ![p[t].n].exp = None]
Follow(t) ==
  /\ At(t, "follow") /\ Free /\ UNCHANGED acc
  /\ LET n == p[t].n m == p[t].m IN
     IF ns[n].role = "follow" THEN Done(t, "already") /\ UNCHANGED ns
     ELSE IF ns[m].exp = None THEN Done(t, "exc") /\ UNCHANGED ns
     ELSE \/ Done(t, "ok") /\ ns' = [ns EXCEPT ![n].role = "follow", ![n].to = m]
          \/ Lossy /\ Done(t, "exc") /\ UNCHANGED ns
Flip(t) ==
  /\ At(t, "flip") /\ Free /\ UNCHANGED acc
  /\ \E d \in Slip : LET n == p[t].n x == ns[n]
         r == Ask(ns, x.to, [size |-> Len(x.log), hd |-> x.head, key |-> p[t].key, clk |-> p[t].now + d], p[t].now + d)
     IN IF x.role = "master" THEN Done(t, "already") /\ UNCHANGED ns
        ELSE IF x.role # "follow" THEN Done(t, "nobody") /\ UNCHANGED ns
        ELSE \/ ~r.ok /\ Done(t, "refused") /\ ns' = r.s
             \/ r.ok /\ p' = [p EXCEPT ![t].s = "taken"] /\ ns' = r.s
             \/ Lossy /\ Done(t, "exc") /\ UNCHANGED ns
             \/ Lossy /\ ~r.ok /\ Done(t, "exc") /\ ns' = r.s
\* the rest of the master's entries has arrived
Taken(t) == /\ p[t] # None /\ p[t].o = "flip" /\ p[t].s = "taken" /\ UNCHANGED acc
            /\ \/ Done(t, "ok") /\ LET n == p[t].n m == ns[n].to IN ns' = [ns EXCEPT ![n].log = ns[m].log, ![n].head = ns[m].head, ![n].role = "master", ![n].to = 0]
               \/ Lossy /\ Done(t, "exc") /\ UNCHANGED ns
\* somebody else asks
Raw(t) == /\ At(t, "ask") /\ Free /\ UNCHANGED acc
          /\ \E d \in Slip : LET r == Ask(ns, p[t].n, p[t].a, p[t].now + d) x == r.s[p[t].n] IN
             /\ ns' = r.s
             /\ IF r.ok THEN Done(t, [code |-> 200, log |-> SubSeq(x.log, p[t].a.size + 1, Len(x.log)),
                                      head |-> IF x.head > p[t].a.hd /\ (x.log = <<>> \/ x.head > x.log[Len(x.log)].us) THEN x.head ELSE Nothing])
                ELSE Done(t, [code |-> 0, log |-> <<>>, head |-> Nothing])
\* a follower receives something
Sync(n) == /\ ns[n].role = "follow" /\ ns[ns[n].to].exp # None /\ UNCHANGED <<p, acc>>
           /\ ~(\E t \in Threads : p[t] # None /\ p[t].o = "flip" /\ p[t].n = n /\ p[t].s = "taken")
           /\ LET x == ns[n] m == ns[ns[n].to] k == Len(x.log) IN
              IF k < Len(m.log) THEN ns' = [ns EXCEPT ![n].log = Append(@, m.log[k + 1]), ![n].head = m.log[k + 1].us]
              ELSE m.head > x.head /\ ns' = [ns EXCEPT ![n].head = m.head]
Settled == /\ Free
           /\ \A t \in Threads : p[t] = None
           /\ \A n \in Nodes : ns[n].role = "follow" /\ ns[ns[n].to].exp # None => ns[n].log = ns[ns[n].to].log /\ ns[n].head = ns[ns[n].to].head
\* ---------------------------------------------------------------- what matters
Masters == {n \in Nodes : ns[n].role \in {"master", "hold"}}
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
OneMaster == Cardinality(Masters) <= 1
\* the master has all that was ever accepted, everybody else a part of it
NothingLost == /\ \A n \in Masters : ns[n].log = acc
               /\ \A n \in Nodes : Prefix(ns[n].log, acc)
               /\ \A n \in Nodes : ns[n].role = "ex" /\ Masters = {} => \E m \in Nodes : ns[m].role = "ex" /\ ns[m].log = acc
=============================================================================

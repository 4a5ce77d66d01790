------------------------------- MODULE Stream -------------------------------
(* A stream: the log and its head, the publishers, the authority to publish, and the subscribers (stream/stream.h).

   log      sequence of [v, us]; indexes of the stream count from 0, so entry i is log[i + 1]
   head     the time up to which everything is known; heads: every value it has had
   ops      calls in progress: id, o, h (handle or subscriber), v, ts, g (the timestamp the call gets if accepted), t, s, f, idx, us, aux
   subs     subscribers by number: st = "run" / "cb" (a callback runs) / "fin" (said it is done) / "done" (done callback called) / "gone"
   gen, master, closing    the current publisher's generation; whether the stream itself gives it out; whether it is being taken away
   hold     borrowed publishers: handle -> generation                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Default == -1
VARIABLES log, head, heads, ops, subs, gen, master, closing, hold, phase
svars == <<log, head, heads, ops, subs, gen, master, closing, hold, phase>>
lvars == <<log, head, heads>>
avars == <<gen, master, closing, hold>>
None == 0 - 1
Last == IF log = <<>> THEN None ELSE log[Len(log)].us
Upd(x, y) == ops' = (ops \ {x}) \cup {y}
\* what a subscriber is to be told about entry i (from 0)
Wants(s, i) == i >= s.begin /\ log[i + 1].us >= s.from /\ (s.flt => log[i + 1].v % 2 = 1)
\* ---------------------------------------------------------------- calls
NewSub(d) == [st |-> "run", begin |-> d.begin, from |-> d.from, flt |-> d.flt, req |-> FALSE, told |-> FALSE, next |-> d.begin, hd |-> None, li |-> None]
Call(id, o, h, v, ts, g, t, d) ==
  /\ phase = "live" /\ \A x \in ops : x.id # id
  /\ ops' = ops \cup {[id |-> id, o |-> o, h |-> h, v |-> v, ts |-> ts, g |-> g, t |-> t, s |-> "new", f |-> 0, idx |-> 0, us |-> 0, aux |-> <<>>]}
  /\ subs' = CASE o = "sub" -> [k \in DOMAIN subs \cup {h} |-> IF k = h THEN NewSub(d) ELSE subs[k]]
               [] o = "unsub" -> [subs EXCEPT ![h].req = TRUE]
               [] o = "destroy" -> [k \in DOMAIN subs |-> [subs[k] EXCEPT !.req = TRUE]]
               [] OTHER -> subs
  /\ UNCHANGED <<lvars, avars, phase>>
Ret(id, f, i, u) == \E x \in ops : /\ x.id = id /\ x.s = "done" /\ x.f = f /\ x.idx = i /\ x.us = u
                                   /\ ops' = ops \ {x} /\ UNCHANGED <<lvars, subs, avars, phase>>
\* ---------------------------------------------------------------- publishing
May(x) == x.o \in {"pub", "head", "raw"} \/ (x.o \in {"hpub", "hhead"} /\ x.h \in DOMAIN hold /\ hold[x.h] = gen)
Publish(x) == /\ x.o \in {"pub", "hpub", "raw"} /\ x.s = "new" /\ May(x) /\ x.g > head
              /\ (x.o = "raw" => x.h = Len(log))
              /\ log' = Append(log, [v |-> x.v, us |-> x.g]) /\ head' = x.g /\ heads' = heads \cup {x.g}
              /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1, !.idx = Len(log), !.us = x.g]) /\ UNCHANGED <<subs, avars, phase>>
MoveHead(x) == /\ x.o \in {"head", "hhead"} /\ x.s = "new" /\ May(x) /\ x.g > head
           /\ head' = x.g /\ heads' = heads \cup {x.g} /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1]) /\ UNCHANGED <<log, subs, avars, phase>>
Refuse(x) == /\ x.s = "new"
             /\ \/ x.o \in {"pub", "hpub", "raw", "head", "hhead"} /\ (IF x.ts = Default THEN x.t ELSE x.ts) <= head /\ Upd(x, [x EXCEPT !.s = "done", !.f = 2])
                \/ x.o = "raw" /\ x.h # Len(log) /\ Upd(x, [x EXCEPT !.s = "done", !.f = 3])
             /\ UNCHANGED <<lvars, subs, avars, phase>>
Iter(x) == x.o = "iter" /\ x.s = "new" /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1, !.aux = log]) /\ UNCHANGED <<lvars, subs, avars, phase>>
\* ---------------------------------------------------------------- authority
Borrow(x) == /\ x.o = "borrow" /\ x.s = "new"
             /\ IF master THEN hold' = [h \in DOMAIN hold \cup {x.h} |-> IF h = x.h THEN gen ELSE hold[h]] /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
                          ELSE hold' = hold /\ Upd(x, [x EXCEPT !.s = "done", !.f = 2])
             /\ UNCHANGED <<lvars, subs, gen, master, closing, phase>>
Try(x) == x.o = "trypub" /\ x.s = "new" /\ Upd(x, [x EXCEPT !.s = "done", !.f = IF master THEN 1 ELSE 2]) /\ UNCHANGED <<lvars, subs, avars, phase>>
Release(x) == /\ x.o = "rel" /\ x.s = "new" /\ hold' = [h \in DOMAIN hold \ {x.h} |-> hold[h]] /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
              /\ UNCHANGED <<lvars, subs, gen, master, closing, phase>>
Valid(x) == x.o = "valid" /\ x.s = "new" /\ Upd(x, [x EXCEPT !.s = "done", !.f = IF closing THEN 0 ELSE 1]) /\ UNCHANGED <<lvars, subs, avars, phase>>
IsMaster(x) == x.o = "is" /\ x.s = "new" /\ Upd(x, [x EXCEPT !.s = "done", !.f = IF master THEN 1 ELSE 0]) /\ UNCHANGED <<lvars, subs, avars, phase>>
Begin(x) == /\ x.o \in {"follow", "master"} /\ x.s = "new" /\ ~closing /\ master' = FALSE /\ closing' = TRUE /\ Upd(x, [x EXCEPT !.s = "wait"])
            /\ UNCHANGED <<lvars, subs, gen, hold, phase>>
End(x) == /\ x.o \in {"follow", "master"} /\ x.s = "wait" /\ (\A h \in DOMAIN hold : hold[h] # gen)
          /\ gen' = gen + 1 /\ closing' = FALSE /\ master' = (x.o = "master")
          /\ hold' = IF x.o = "follow" THEN [h \in DOMAIN hold \cup {x.h} |-> IF h = x.h THEN gen + 1 ELSE hold[h]] ELSE hold
          /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1]) /\ UNCHANGED <<lvars, subs, phase>>
\* ---------------------------------------------------------------- scopes
Sub(x) == x.o = "sub" /\ x.s = "new" /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1]) /\ UNCHANGED <<lvars, subs, avars, phase>>
Unsub(x) == /\ x.o = "unsub" /\ x.s = "new" /\ subs[x.h].st = "done" /\ subs' = [subs EXCEPT ![x.h].st = "gone"]
            /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1]) /\ UNCHANGED <<lvars, avars, phase>>
Alive(x) == /\ x.o = "alive" /\ x.s = "new"
            /\ \/ subs[x.h].st \in {"run", "cb", "fin"} /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1])
               \/ subs[x.h].st \in {"fin", "done"} /\ Upd(x, [x EXCEPT !.s = "done", !.f = 0])
            /\ UNCHANGED <<lvars, subs, avars, phase>>
Die(x) == /\ x.o = "destroy" /\ x.s = "new" /\ DOMAIN hold = {} /\ (\A k \in DOMAIN subs : subs[k].st = "gone") /\ phase' = "dead"
          /\ Upd(x, [x EXCEPT !.s = "done", !.f = 1]) /\ UNCHANGED <<lvars, subs, avars>>
Hidden == \E x \in ops : Publish(x) \/ MoveHead(x) \/ Refuse(x) \/ Iter(x) \/ Borrow(x) \/ Try(x) \/ Release(x) \/ Valid(x) \/ IsMaster(x) \/ Begin(x) \/ End(x)
                         \/ Sub(x) \/ Unsub(x) \/ Alive(x) \/ Die(x)
\* ---------------------------------------------------------------- subscriber threads
\* the next entry it is to be told about
Entry(k, v, i, us, li, lu) ==
  /\ k \in DOMAIN subs /\ subs[k].st = "run" /\ i >= subs[k].next /\ i < Len(log) /\ Wants(subs[k], i)
  /\ \A j \in subs[k].next..(i - 1) : ~Wants(subs[k], j)
  /\ log[i + 1].v = v /\ log[i + 1].us = us /\ head >= subs[k].from
  /\ li >= i /\ li >= subs[k].li /\ li < Len(log) /\ log[li + 1].us = lu
  /\ subs' = [subs EXCEPT ![k].st = "cb", ![k].next = i + 1, ![k].hd = us, ![k].li = li]
  /\ UNCHANGED <<lvars, ops, avars, phase>>
\* the head: only what it has been, growing, with everything older told already
HeadIs(k, us) ==
  /\ k \in DOMAIN subs /\ subs[k].st = "run" /\ us \in heads /\ us > subs[k].hd /\ us >= subs[k].from /\ Len(log) >= subs[k].begin
  /\ \A j \in subs[k].next..(Len(log) - 1) : Wants(subs[k], j) => log[j + 1].us > us
  /\ subs' = [subs EXCEPT ![k].st = "cb", ![k].hd = us] /\ UNCHANGED <<lvars, ops, avars, phase>>
Terminate(k) == /\ k \in DOMAIN subs /\ subs[k].st = "run" /\ subs[k].req /\ ~subs[k].told
                /\ subs' = [subs EXCEPT ![k].st = "cb", ![k].told = TRUE] /\ UNCHANGED <<lvars, ops, avars, phase>>
Answer(k, r) == /\ k \in DOMAIN subs /\ subs[k].st = "cb" /\ subs' = [subs EXCEPT ![k].st = IF r = "done" THEN "fin" ELSE "run"]
                /\ UNCHANGED <<lvars, ops, avars, phase>>
Done(k) == k \in DOMAIN subs /\ subs[k].st = "fin" /\ subs' = [subs EXCEPT ![k].st = "done"] /\ UNCHANGED <<lvars, ops, avars, phase>>
Init0 == /\ heads = {None, head} \cup {log[i].us : i \in 1..Len(log)}
         /\ ops = {} /\ subs = <<>> /\ gen = 1 /\ master = TRUE /\ closing = FALSE /\ hold = <<>> /\ phase = "live"
\* ---------------------------------------------------------------- what holds
OnePublisher == \A h \in DOMAIN hold : hold[h] = gen
MasterIsIdle == master => ~closing
LogIsLog == (\A i \in 2..Len(log) : log[i].us > log[i - 1].us) /\ head >= Last
=============================================================================

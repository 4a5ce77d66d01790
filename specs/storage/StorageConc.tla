----------------------------- MODULE StorageConc -----------------------------
(* Transactions from several threads, on a storage which is the master of its stream or follows it.

   What a transaction does it does while nobody else can: between "begin" (its function starts) and "bend" (it returns or throws),
   then possibly the follow-up "f2".  A follower applies the entries of its stream one by one, in between.                       *)
EXTENDS Storage

VARIABLES ops,      \* what runs: records [id, o, rw, two, n, st, how, f2, may, fol, old, val]
          holder,   \* who may be inside of a transaction (the id of the thread), or None
          locked,   \* the thread which holds the publishing mutex itself, or None
          applied,  \* how many journal entries the storage has applied
          master,
          fed,      \* how many of the entries of the former master have arrived
          stopping, \* "no", "maybe", "yes"
          sure      \* how many of those a reader of the time of the last applied one cannot miss
cvars == <<svars, ops, holder, locked, applied, master, fed, stopping, sure>>
None == -1

CInit(js, isMaster) ==
  /\ journal = js
  /\ LET s == IF isMaster THEN Replay(Nothing, js) ELSE Nothing IN ent = s[1] /\ lm = s[2]
  /\ clock = (IF js = <<>> THEN -1 ELSE js[Len(js)].us)
  /\ tx = NoTx /\ down = FALSE
  /\ ops = {} /\ holder = None /\ locked = None /\ stopping = "no"
  /\ applied = (IF isMaster THEN Len(js) ELSE 0) /\ sure = applied /\ master = isMaster /\ fed = Len(js)

The(id, o) == CHOOSE x \in ops : x.id = id /\ x.o = o
Runs(id, o) == \E x \in ops : x.id = id /\ x.o = o
Put(x, y) == ops' = (ops \ {x}) \cup {y}
CCall(id, o, rw, two, valued, n) ==
  /\ ~Runs(id, o)
  /\ ops' = ops \cup {[id |-> id, o |-> o, rw |-> rw, two |-> two, valued |-> valued, n |-> n, st |-> "called", how |-> "", f2 |-> "",
                       may |-> stopping # "yes", fol |-> ~master, old |-> sure, mark |-> 0]}
  /\ stopping' = IF o = "shutdown" /\ stopping = "no" THEN "maybe" ELSE stopping
  /\ IF o = "lock" THEN locked = None /\ ~tx.on /\ holder = None /\ locked' = id ELSE UNCHANGED locked
  /\ UNCHANGED <<svars, holder, applied, master, fed, sure>>
Free1(id) == ~tx.on /\ holder = None /\ locked \in {None, id}
CBegin(id) ==
  /\ Runs(id, "tx") /\ Free1(id)
  /\ LET x == The(id, "tx") IN
     /\ x.st = "called" /\ x.may
     /\ x.rw => master
     /\ Begin(x.rw) /\ holder' = id
     /\ Put(x, [x EXCEPT !.st = "in"])
  /\ sure' = applied
  /\ UNCHANGED <<locked, applied, master, fed, stopping>>
COp(id, c, op, key, v, us) == holder = id /\ tx.on /\ Op(c, op, key, v, us) /\ UNCHANGED <<ops, holder, locked, applied, master, fed, stopping, sure>>
\* Does the follow-up still have to run?
Pending(x, how) == x.two /\ how \in {"ret", "rbv"}
CEnd(id, how, v, begin, end, us) ==
  /\ holder = id /\ tx.on
  /\ applied' = IF how = "ret" /\ tx.muts # <<>> THEN applied + 1 ELSE applied
  /\ LET x == The(id, "tx") IN
     /\ v = x.n
     /\ Put(x, [x EXCEPT !.st = IF Pending(x, how) THEN "f2" ELSE "done", !.how = how, !.mark = applied'])
     /\ (IF how = "ret" THEN Commit(begin, end, us) ELSE Abort)
     /\ holder' = IF Pending(x, how) THEN id ELSE None
  /\ UNCHANGED <<locked, master, fed, stopping, sure>>
CF2(id, how, v) ==
  /\ holder = id /\ ~tx.on
  /\ LET x == The(id, "tx") IN x.st = "f2" /\ v = x.n /\ Put(x, [x EXCEPT !.st = "done", !.f2 = how])
  /\ holder' = None
  /\ UNCHANGED <<svars, locked, applied, master, fed, stopping, sure>>
Told(x, st, val) ==
  CASE st = "shutdown" -> x.st = "called" /\ stopping # "no"
    [] st = "follower" -> x.st = "called" /\ x.rw /\ x.fol
    [] OTHER -> /\ x.st = "done"
                /\ LET o == Outcome(x.rw, x.how, x.two, x.f2, x.n) IN st \in o.st /\ (st # "exc" /\ x.valued => val = o.val)
CRet(id, o, st, val) ==
  /\ Runs(id, o)
  /\ LET x == The(id, o) IN
     /\ CASE o = "tx" -> Told(x, st, val)
          [] o = "is" -> IF val = 1 THEN master ELSE x.fol
          [] o = "applied" -> \E n \in x.old..applied : val = IF n = 0 THEN -1 ELSE journal[n].us
          [] o = "flip" -> IF st = "ok" THEN x.st = "flipped" ELSE st = "no" /\ master
          [] o = "feed" -> IF st = "ok" THEN x.st = "fed" ELSE st = "no" /\ x.st = "called" /\ (master \/ \E y \in ops : y.o = "flip")
          [] o \in {"lock", "shutdown"} -> TRUE
     /\ ops' = ops \ {x}
     /\ stopping' = IF o = "shutdown" THEN "yes" ELSE stopping
     /\ locked' = IF o = "lock" THEN None ELSE locked
     /\ sure' = IF x.mark > sure THEN x.mark ELSE sure
  /\ UNCHANGED <<svars, holder, applied, master, fed>>

---------------------------------------------------------------------------
\* Steps nobody sees.
Feed(entry) ==   \* the next entry of the former master arrives in the stream
  /\ ~master   \* (a stream in memory can be published into during a transaction, and then the entry is applied after it)
  /\ \E x \in ops : x.o = "feed" /\ x.st = "called" /\ Put(x, [x EXCEPT !.st = "fed"])
  /\ journal' = Append(journal, entry) /\ fed' = fed + 1 /\ clock' = entry.us
  /\ UNCHANGED <<ent, lm, tx, down, holder, locked, applied, master, stopping, sure>>
Apply ==         \* the follower applies the next entry, while no transaction runs
  /\ ~master /\ applied < Len(journal) /\ Free1(None)
  /\ LET s == ApplyAll(<<ent, lm>>, journal[applied + 1].muts) IN ent' = s[1] /\ lm' = s[2]
  /\ applied' = applied + 1 /\ sure' = applied'
  /\ UNCHANGED <<tx, journal, clock, down, ops, holder, locked, master, fed, stopping>>
Flip ==          \* the follower becomes the master, with everything which has arrived
  /\ ~master /\ Free1(None) /\ applied = Len(journal)
  /\ \E x \in ops : x.o = "flip" /\ x.st = "called" /\ Put(x, [x EXCEPT !.st = "flipped"])
  /\ master' = TRUE
  /\ UNCHANGED <<svars, holder, locked, applied, fed, stopping, sure>>

---------------------------------------------------------------------------
\* Properties.
OneAtATime == tx.on => holder # None
ShowsAPrefix == ~tx.on => Same(Replay(Nothing, SubSeq(journal, 1, applied)), <<ent, lm>>)
MasterHasAll == master /\ ~tx.on => applied = Len(journal)
FollowerDoesNotWrite == (tx.on /\ tx.rw) => master
=============================================================================

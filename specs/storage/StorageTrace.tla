----------------------------- MODULE StorageTrace -----------------------------
EXTENDS Storage, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l, svars>>
T == Traces[tid].ev
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
\* A list of pairs <<key, value>> as a function.
AsFun(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE i \in 1..Len(ps) : ps[i][1] = k) ]
AsMap(ps) == LET ix == AsFun(ps) IN [k \in DOMAIN ix |-> ps[ix[k]][2]]
SameMeta(f, ps) == DOMAIN f = {ps[i][1] : i \in 1..Len(ps)} /\ Len(ps) = Cardinality(DOMAIN f) /\ \A i \in 1..Len(ps) : f[ps[i][1]] = ps[i][2]
\* The journal as it is seen after a transaction: its length, its last entry, the time of what has been applied last.
JournalShown(j, js) == /\ j.n = Len(js)
                       /\ j.applied = IF js = <<>> THEN -1 ELSE js[Len(js)].us
                       /\ IF js = <<>> THEN j.last = <<>>
                          ELSE LET x == j.last[1] y == js[Len(js)] IN
                               /\ x.us = y.us /\ x.begin = y.begin /\ x.end = y.end /\ x.muts = y.muts
                               /\ SameMeta(y.meta, x.meta)
EndEv(e) == LET two == e.f2 # "none"
                o == Outcome(tx.rw, e.how, two, e.f2, e.n)
                j == e.j
                x == IF j.last = <<>> THEN [begin |-> 0, end |-> 0, us |-> 0] ELSE j.last[1]
            IN IF down THEN /\ e.st = "shutdown" /\ e.f2n = 0 /\ Abort
               ELSE /\ e.st \in o.st /\ e.f2n = o.f2n /\ e.f2v = o.f2v
                    /\ (e.st # "exc" /\ e.valued) => e.val = o.val
                    /\ (IF e.how = "ret" THEN Commit(x.begin, x.end, x.us) ELSE Abort)
Consume(e) ==
  \/ e.k = "begin" /\ Begin(e.rw)
  \/ e.k = "op" /\ LET t == AsMap(e.lm)
                       ps == Prims(e.c, e.op, e.key, e.v)
                   IN /\ DOMAIN t = DOMAIN Get(lm, e.c) \cup {p.key : p \in ps}
                      /\ Op(e.c, e.op, e.key, e.v, t)
                      /\ Get(lm', e.c) = t
  \/ e.k = "meta" /\ SetMeta(e.key, e.v)
  \/ e.k = "unmeta" /\ UnsetMeta(e.key)
  \/ e.k = "end" /\ EndEv(e) /\ JournalShown(e.j, journal')
  \/ e.k = "view" /\ AllShown(<<ent, lm>>, e.d) /\ UNCHANGED svars
  \/ e.k = "replay" /\ AllShown(Replay(Nothing, SubSeq(journal, 1, e.n)), e.d) /\ UNCHANGED svars
  \/ e.k = "shutdown" /\ Shutdown
  \/ e.k = "reopen" /\ Reopen
TraceNext == /\ l <= Len(T)
             /\ Consume(T[l])
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

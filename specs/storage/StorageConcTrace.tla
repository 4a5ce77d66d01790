--------------------------- MODULE StorageConcTrace ---------------------------
EXTENDS StorageConc, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l, cvars>>
T == Traces[tid].ev
Final == Traces[tid].journal      \* what is in the stream at the end
AsFun(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE i \in 1..Len(ps) : ps[i][1] = k)]
AsMap(ps) == LET ix == AsFun(ps) IN [k \in DOMAIN ix |-> ps[ix[k]][2]]
MetaOf(x) == [x EXCEPT !.meta = AsMap(@)]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ LET e == Traces[tid].start IN CInit([i \in 1..e.pre |-> MetaOf(e.feed[i])], e.master)
NextFinal == IF Len(journal) < Len(Final) THEN Final[Len(journal) + 1] ELSE [begin |-> -5, end |-> -5, us |-> -5]
Consume(e) ==
  CASE e.k = "c" -> CCall(e.i, e.o, e.rw, e.two, e.valued, e.n)
    [] e.k = "r" -> CRet(e.i, e.o, e.st, e.val)
    [] e.k = "begin" -> CBegin(e.i)
    [] e.k = "op" -> LET t == AsMap(e.lm) IN
                     /\ DOMAIN t = DOMAIN Get(lm, e.c) \cup {p.key : p \in Prims(e.c, e.op, e.key, e.v)}
                     /\ COp(e.i, e.c, e.op, e.key, e.v, t) /\ Get(lm', e.c) = t
    [] e.k = "bend" -> CEnd(e.i, e.how, e.v, NextFinal.begin, NextFinal.end, NextFinal.us)
    [] e.k = "f2" -> CF2(e.i, e.how, e.v)
    [] e.k = "view" -> holder = e.i /\ AllShown(<<ent, lm>>, e.d) /\ UNCHANGED cvars
    [] e.k = "caughtup" -> applied = Len(journal) /\ UNCHANGED cvars
    [] e.k = "journal" -> Len(Final) = Len(journal) /\ (\A i \in 1..Len(Final) : MetaOf(Final[i]) = journal[i]) /\ UNCHANGED cvars
TraceNext ==
  \/ /\ l <= Len(T) /\ Consume(T[l])
     /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
  \/ l <= Len(T) /\ (Apply \/ Flip \/ (fed < Len(Traces[tid].start.feed) /\ Feed(MetaOf(Traces[tid].start.feed[fed + 1])))) /\ UNCHANGED <<tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

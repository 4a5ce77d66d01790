--------------------------- MODULE PersistenceMC ---------------------------
EXTENDS Persistence, TLC
CONSTANTS TS, ES, MaxLen
VARIABLES st, prev
Ops == [op : {"pub"}, us : TS, e : ES] \cup [op : {"raw"}, i : 0..MaxLen, us : TS, e : ES]
       \cup [op : {"head"}, us : TS] \cup [op : {"rawbad", "last", "info", "reopen", "copy"}]
       \cup [op : {"iter"}, b : 0..MaxLen, e : {-1} \cup 0..MaxLen]
       \cup [op : {"itert"}, from : TS, till : {-1, 0} \cup TS]
       \cup [op : {"open"}, k : {0}, b : 0..MaxLen, e : {-1} \cup 0..MaxLen] \cup [op : {"next"}, k : {0}]
Init == st = InitSt /\ prev = InitSt
Next == \E o \in Ops : LET a == Apply(st, o)
                       IN /\ Len(a.st.log) <= MaxLen /\ st' = a.st /\ prev' = st
                          /\ Assert(a.res.r # "ok" => a.st = st, <<"a rejected operation changed something", o>>)
Spec == Init /\ [][Next]_<<st, prev>>
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
AppendOnly == IsPrefix(prev.log, st.log) /\ prev.head <= st.head
Order == StrictlyIncreasing(st) /\ HeadBound(st)
Ranges == \A f \in TS : \A t \in {-1, 0} \cup TS : RangeExact(st, f, t)
IterSnapshot == \A k \in 0..1 : st.its[k].pos <= st.its[k].end /\ st.its[k].end <= Size(st)
ViewSt == <<st, prev.log, prev.head>>
=============================================================================

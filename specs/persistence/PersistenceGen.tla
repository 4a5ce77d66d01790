--------------------------- MODULE PersistenceGen ---------------------------
(* Enumerates behaviours of the specification as operation sequences with the results they must give. *)
EXTENDS Persistence, Json
CONSTANTS K
VARIABLES st, hist
P(us, e) == [op |-> "pub", us |-> us, e |-> e]
GenOps == {P(us, "a") : us \in {0, 2, 3, 5}} \cup {[op |-> "raw", i |-> i, us |-> us, e |-> "r"] : i \in {0, 1}, us \in {2, 4}}
          \cup {[op |-> "head", us |-> us] : us \in {0, 3, 4, 7}} \cup {[op |-> "rawbad"], [op |-> "reopen"]}
          \cup {[op |-> "open", k |-> 0, b |-> 0, e |-> -1], [op |-> "next", k |-> 0]}
Probe == <<[op |-> "info"], [op |-> "last"], [op |-> "iter", b |-> 0, e |-> -1], [op |-> "iteru", b |-> 0, e |-> -1],
           [op |-> "iter", b |-> 1, e |-> 2], [op |-> "iteru", b |-> 1, e |-> -1], [op |-> "iter", b |-> 2, e |-> 1],
           [op |-> "range", from |-> 3, till |-> 4], [op |-> "itert", from |-> 2, till |-> 3],
           [op |-> "itertu", from |-> 3, till |-> -1], [op |-> "itert", from |-> 4, till |-> 3],
           [op |-> "copy"], [op |-> "next", k |-> 0], [op |-> "reopen"]>>
RECURSIVE RunAll(_, _, _)
RunAll(s, ops, acc) == IF ops = <<>> THEN acc
  ELSE LET a == Apply(s, Head(ops)) IN RunAll(a.st, Tail(ops), Append(acc, [op |-> Head(ops), res |-> a.res]))
Init == st = InitSt /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ \E o \in GenOps : LET a == Apply(st, o)
             IN /\ st' = a.st /\ hist' = Append(hist, [op |-> o, res |-> a.res])
                /\ (Len(hist') = K => PrintT("GEN " \o ToJson([ev |-> hist' \o RunAll(st', Probe, <<>>)])))
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================

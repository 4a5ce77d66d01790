------------------------- MODULE PersistenceLoadGen -------------------------
EXTENDS PersistenceCrash, Json
CONSTANTS K
VARIABLES lines
Alphabet == {[k |-> "entry", i |-> i, us |-> us, e |-> "x"] : i \in {0, 1, 2}, us \in {0, 1, 2, 4}}
            \cup {[k |-> "head", us |-> us] : us \in {0, 1, 3, 5}} \cup {[k |-> x] : x \in {"sig", "badsig", "dir", "junk"}}
Init == lines = <<>>
Next == Len(lines) < K /\ \E x \in Alphabet : lines' = Append(lines, x)
        /\ PrintT("GEN " \o ToJson([op |-> "load", lines |-> lines']))
        /\ (LoadFile(lines').r = "ok" \/ Len(lines') = K \/ LoadFile(lines).r = "ok")
Spec == Init /\ [][Next]_lines
=============================================================================

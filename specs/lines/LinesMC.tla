------------------------------- MODULE LinesMC -------------------------------
EXTENDS Lines, TLC, Json
CONSTANTS Bytes, MaxPiece, MaxFeeds, MaxFail
VARIABLES hist
Pieces == UNION {[1..n -> Bytes] : n \in 0..MaxPiece}
MCInit == hist = <<>> /\ \E f \in 0..MaxFail : Init(f)
MCNext == \/ \E p \in Pieces : Len(hist) < MaxFeeds /\ Feed(p) /\ hist' = Append(hist, p)
          \/ End /\ UNCHANGED hist
Spec == MCInit /\ [][MCNext]_<<lvars, hist>>
\* Every behaviour which has ended, as a line to be executed.
GenPrint == state' = "ended" => PrintT("GEN " \o ToJson([f |-> failAt, p |-> hist]))
\* Independence of the cuts: the lines are a function of the bytes alone.
Cut == (state = "ended" /\ failAt = 0) => out = Complete(given, <<>>) \o (IF Rest(given) = <<>> THEN <<>> ELSE <<Rest(given)>>)
=============================================================================

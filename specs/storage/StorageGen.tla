------------------------------ MODULE StorageGen ------------------------------
(* One history of the specification for every transition between its (abstracted) states: `GenView` forgets the exact times. *)
EXTENDS StorageMC, Json
VARIABLE hist
gvars == <<vars, hist>>
GenOp == \E c \in Conts, op \in {"add", "erase", "readd", "eraserow", "erasecol"}, v \in Vals : \E key \in Key(c) :
           /\ op # "add" => v = CHOOSE x \in Vals : TRUE
           /\ (op = "eraserow" /\ c \notin OneManyNames) => key[2] = (CHOOSE x \in Cols : TRUE)
           /\ op = "erasecol" => key[1] = (CHOOSE x \in Rows : TRUE)
           /\ tx.on /\ Len(tx.muts) < MaxMuts
           /\ LET ps == Prims(c, op, key, v) IN
              IF ps = {} THEN UNCHANGED vars   \* (an operation without effect is a transition too)
              ELSE Op(c, op, key, v, CHOOSE f \in Times(ps) : TRUE) /\ UNCHANGED n
           /\ hist' = Append(hist, <<op, c, key[1], key[2], v>>)
GenBegin == MCBegin /\ hist' = Append(hist, <<"begin">>)
GenEnd == \/ tx.on /\ Commit(tx.clock + 1, clock + 1, clock + 2) /\ UNCHANGED n /\ hist' = Append(hist, <<"commit">>)
          \/ Abort /\ UNCHANGED n /\ hist' = Append(hist, <<"abort">>)
GenNext == (GenBegin \/ GenOp \/ GenEnd)
GenSpec == Init /\ n = 0 /\ hist = <<>> /\ [][GenNext]_gvars
GenView == <<ent, [c \in DOMAIN lm |-> DOMAIN lm[c]], n, tx.on, IF tx.on THEN <<tx.ent, [c \in DOMAIN tx.lm |-> DOMAIN tx.lm[c]], Len(tx.muts)>> ELSE <<>> >>
GenPrint == PrintT("GEN " \o ToJson(hist'))
=============================================================================

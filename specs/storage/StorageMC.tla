------------------------------ MODULE StorageMC ------------------------------
EXTENDS Storage
CONSTANTS Conts, Rows, Cols, Vals, MaxTx, MaxMuts
VARIABLE n
vars == <<svars, n>>
Key(c) == IF c \in DictNames THEN Rows \X {0} ELSE Rows \X Cols
\* The times: the next ones, evictions (in any order) before the addition.
Times(ps) == {f \in [{p.key : p \in ps} -> {clock + i : i \in 1..Cardinality(ps)}] : TimesOk(ps, f)}
DoOp == \E c \in Conts, op \in {"add", "erase", "readd", "eraserow", "erasecol"}, v \in Vals : \E key \in Key(c) :
          /\ op # "add" => v = CHOOSE x \in Vals : TRUE
          /\ tx.on /\ Len(tx.muts) < MaxMuts
          /\ Prims(c, op, key, v) # {}
          /\ \E us \in Times(Prims(c, op, key, v)) : Op(c, op, key, v, us)
          /\ UNCHANGED n
\* (`begin` needs room before the first mutation)
MCBegin == n < MaxTx /\ ~tx.on /\ n' = n + 1
           /\ tx' = [on |-> TRUE, rw |-> TRUE, ent |-> ent, lm |-> lm, clock |-> clock, muts |-> <<>>, undo |-> <<>>, meta |-> Empty]
           /\ clock' = clock + 1 /\ UNCHANGED <<ent, lm, journal, down>>
Next == MCBegin \/ DoOp \/ (tx.on /\ Commit(tx.clock + 1, clock + 1, clock + 2) /\ UNCHANGED n) \/ (Abort /\ UNCHANGED n)
Spec == Init /\ n = 0 /\ [][Next]_vars
=============================================================================

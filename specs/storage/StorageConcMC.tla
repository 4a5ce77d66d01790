---------------------------- MODULE StorageConcMC ----------------------------
EXTENDS StorageConc
CONSTANTS Ids, MaxOps, Master, Kinds
VARIABLE n
vars == <<cvars, n>>
Ent(us, muts) == [us |-> us, begin |-> us - 4, end |-> us - 1, meta |-> Empty, muts |-> muts]
M(t, k, us) == [c |-> "Du", t |-> t, key |-> <<k, 0>>, v |-> IF t = "U" THEN us ELSE 0, us |-> us]
\* What the former master has done.
Feeds == <<Ent(5, <<M("U", 0, 2), M("U", 1, 3)>>), Ent(10, <<M("D", 0, 7), M("U", 1, 8)>>)>>
MCInit == CInit(IF Master THEN <<>> ELSE SubSeq(Feeds, 1, 1), Master) /\ n = 0
DoCall == \E id \in Ids, o \in Kinds, rw \in BOOLEAN, two \in BOOLEAN :
            /\ n < MaxOps /\ n' = n + 1 /\ (o # "tx" => ~rw /\ ~two)
            /\ ~\E x \in ops : x.id = id /\ x.o # "lock"
            /\ (o = "lock" => ~Runs(id, "lock"))
            /\ (o = "feed" => fed < Len(Feeds) /\ ~\E x \in ops : x.o = "feed")
            /\ CCall(id, o, rw, two, two, n)
DoBegin == \E id \in Ids : CBegin(id) /\ UNCHANGED n
DoOp == \E id \in Ids, op \in {"add", "erase"}, k \in {0, 1} :
          /\ tx.on /\ Len(tx.muts) < 2 /\ Prims("Du", op, <<k, 0>>, 7) # {}
          /\ COp(id, "Du", op, <<k, 0>>, 7, [x \in {<<k, 0>>} |-> clock + 2]) /\ UNCHANGED n
DoEnd == \E id \in Ids, how \in {"ret", "throw", "rbv"} : tx.on /\ CEnd(id, how, The(holder, "tx").n, tx.clock + 1, clock + 1, clock + 2) /\ UNCHANGED n
DoF2 == \E id \in Ids, how \in {"ret", "throw"} : holder # None /\ CF2(id, how, The(holder, "tx").n) /\ UNCHANGED n
DoRet == \E x \in ops : \E st \in {"ok", "no", "committed", "rolledback", "exc", "shutdown", "follower"} : \E val \in {x.n, -1, 0, 1} :
           /\ (x.o = "lock" => ~Runs(x.id, "tx"))
           /\ x.o # "applied" /\ CRet(x.id, x.o, st, val) /\ UNCHANGED n
DoHidden == (Apply \/ Flip \/ (fed < Len(Feeds) /\ Feed(Feeds[fed + 1]))) /\ UNCHANGED n
Next == DoCall \/ DoBegin \/ DoOp \/ DoEnd \/ DoF2 \/ DoRet \/ DoHidden
Spec == MCInit /\ [][Next]_vars /\ WF_vars(DoBegin \/ DoEnd \/ DoF2 \/ DoRet \/ DoHidden)
\* Every transaction (and whatever else is called) completes, the follower catches up.
Completes == []<>(ops = {} \/ n < MaxOps \/ \E x \in ops : x.o = "lock")
CatchesUp == []<>(applied = Len(journal) \/ tx.on)
=============================================================================

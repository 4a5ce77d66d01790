------------------------------ MODULE OwnedMC ------------------------------
EXTENDS Owned
CONSTANTS HS, MaxOps
Fresh == {h \in HS : h \notin reg /\ h \notin gone /\ \A x \in ops : x.g # h}
CallSome == /\ Cardinality(ops) < MaxOps
            /\ \E h \in reg \cup {Owner} :
                 \/ /\ \A x \in ops : x.h # h
                    /\ \/ Call("use", h, "", FALSE) \/ Call("valid", h, "", FALSE)
                       \/ h # Owner /\ Call("drop", h, "", FALSE)
                       \/ \E g \in Fresh, cb \in BOOLEAN : Call("borrow", h, g, cb) \/ (h # Owner /\ Call("move", h, g, cb))
Ret == \E x \in ops : RetBorrow(x.g) \/ RetMove(x.g) \/ RetDrop(x.h) \/ RetUse(x.h, TRUE) \/ (\E v \in BOOLEAN : RetValid(x.h, v))
\* The owner may only be destroyed when no operation on the owner itself is in progress.
DestroyOk == (\A x \in ops : x.h # Owner) /\ DestroyCall
Next == CallSome \/ Hidden \/ Ret \/ DestroyOk \/ (\E h \in HS : Callback(h)) \/ Dtor \/ Destroyed
Spec == InitO /\ [][Next]_ovars
Fair == /\ WF_ovars(Hidden) /\ WF_ovars(Ret) /\ WF_ovars(\E h \in HS : Callback(h)) /\ WF_ovars(Dtor) /\ WF_ovars(Destroyed)
        /\ \A h \in HS : SF_ovars(Call("drop", h, "", FALSE))
LiveSpec == Spec /\ Fair
DestructionEnds == (phase = "called") ~> (phase = "done")
EachCallbackOnce == (phase \in {"dead", "done"}) => tocall = {}
============================================================================

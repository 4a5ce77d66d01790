--------------------------------- MODULE RipMC ---------------------------------
(* A flow run by sources that do MaxOps things in all, blocks which do up to PerF things with each message, and is then joined. *)
(* Which: "pipe": S1|P2|D3, "both": (S1+S2)|D3, "split": S1|(P2+P3)|D4, "lanes": ((S1|P2)+S3)|D4                                *)
EXTENDS Rip, TLC
CONSTANTS Which, MaxOps, PerF, Kinds, Ahead
VARIABLES left, fops, ids, phase, acc, took
mvars == <<rvars, left, fops, ids, phase, acc, took>>
Flow == CASE Which = "pipe" -> [route |-> <<[A |-> 2, B |-> 2], [A |-> 3, B |-> 3]>>, into |-> <<0, 1, 2>>, out |-> <<1, 2, 0>>]
          [] Which = "both" -> [route |-> <<[A |-> 3, B |-> 3]>>, into |-> <<0, 0, 1>>, out |-> <<1, 1, 0>>]
          [] Which = "split" -> [route |-> <<[A |-> 2, B |-> 3], [A |-> 4, B |-> 4]>>, into |-> <<0, 1, 1, 2>>, out |-> <<1, 2, 2, 0>>]
          [] Which = "lanes" -> [route |-> <<[A |-> 2, B |-> 2], [A |-> 4, B |-> 4]>>, into |-> <<0, 1, 0, 2>>, out |-> <<1, 2, 2, 0>>]
Blocks == DOMAIN Flow.into
Sources == {b \in Blocks : Flow.into[b] = 0}
Types == IF Which = "split" THEN {"A", "B"} ELSE {"A"}
MCInit == RipInit(Flow) /\ left = MaxOps /\ fops = [b \in Blocks |-> 0] /\ ids = 0 /\ phase = "make" /\ acc = {} /\ took = [e \in DOMAIN Flow.route |-> <<>>]
Rest == UNCHANGED <<acc, took>>
Calls(th, b, o) == LET us == {clk + d : d \in Ahead} IN
  \E y \in (IF o = "head" THEN {"-"} ELSE Types), u \in (IF o = "emit" THEN {0} ELSE us) :
     /\ Call(th, b, o, y, IF o = "head" THEN 0 ELSE ids + 1, clk, clk + 2, u) /\ ids' = IF o = "head" THEN ids ELSE ids + 1
Make == phase = "make" /\ (\E b \in Blocks : Born(b) /\ (\A c \in Blocks : c > b => c \in alive)) /\ UNCHANGED <<left, fops, ids>> /\ Rest
        /\ phase' = IF alive' = Blocks THEN "run" ELSE "make"
FromSource == phase = "run" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<fops, phase>> /\ Rest
              /\ \E b \in Sources, o \in Kinds : Calls(b, b, o)
InF(b) == Into(b) # 0 /\ edges[Into(b)].fl # <<>> /\ edges[Into(b)].fl[1].st = "in" /\ flow.route[Into(b)][edges[Into(b)].fl[1].m.y] = b
FromF == \E b \in Blocks, o \in Kinds : InF(b) /\ Out(b) # 0 /\ fops[b] > 0 /\ fops' = [fops EXCEPT ![b] = @ - 1] /\ Calls(b, b, o)
         /\ UNCHANGED <<left, phase>> /\ Rest
\* the time an emitted message gets in the model is the next one
Doing == \E x \in ops : /\ x.st = "new" /\ Accept(x, IF x.o = "emit" THEN clk + 1 ELSE x.us)
                        /\ LET n == edges'[x.e].n IN acc' = IF n > edges[x.e].n THEN acc \cup {[e |-> x.e, id |-> x.id, t |-> (CHOOSE m \in edges'[x.e].q : m.n = n).t, n |-> n, o |-> x.o, after |-> Len(took[x.e])]} ELSE acc
                        /\ UNCHANGED <<left, fops, ids, phase, took>>
Returns == \E x \in ops : Ret(x.th, IF x.st = "refused" THEN 1 ELSE 0) /\ UNCHANGED <<left, fops, ids, phase>> /\ Rest
Taking == \E e \in 1..NEdges : Take(e) /\ took' = [took EXCEPT ![e] = Append(@, edges'[e].fl[1].m)] /\ UNCHANGED <<left, fops, ids, phase, acc>>
Ins == \E b \in Blocks, e \in 1..NEdges : edges[e].fl # <<>> /\ In(b, edges[e].fl[1].m.id, edges[e].fl[1].m.y) /\ fops' = [fops EXCEPT ![b] = PerF] /\ UNCHANGED <<left, ids, phase>> /\ Rest
Outs == \E b \in Blocks : InF(b) /\ ~(\E x \in ops : x.th = b) /\ Done(b, edges[Into(b)].fl[1].m.id) /\ UNCHANGED <<left, fops, ids, phase>> /\ Rest
Join == phase = "run" /\ ~(\E x \in ops : x.th \in Sources) /\ phase' = "join" /\ UNCHANGED <<rvars, left, fops, ids>> /\ Rest
\* a block goes once all those before it have, having moved the head to where everything is due
Before(b) == IF Into(b) = 0 THEN {} ELSE {c \in Blocks : Out(c) = Into(b)}
Last(b) == phase = "join" /\ b \in alive /\ Before(b) \cap alive = {} /\ (Into(b) # 0 => Idle(Into(b)))
Leaves == \E b \in Blocks : /\ Last(b)
            /\ (IF Out(b) # 0 /\ ~(\E x \in ops : x.th = b) /\ edges[Out(b)].head < 100 THEN Call(b, b, "head", "-", 0, clk, clk, 100) ELSE (~\E x \in ops : x.th = b) /\ Gone(b))
            /\ UNCHANGED <<left, fops, ids, phase>> /\ Rest
Ends == phase = "join" /\ Over /\ phase' = "over" /\ UNCHANGED <<rvars, left, fops, ids>> /\ Rest
MCNext == Make \/ FromSource \/ FromF \/ Doing \/ Returns \/ Taking \/ Ins \/ Outs \/ Join \/ Leaves \/ Ends
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(MCNext)
\* every accepted message is in exactly one place, and is taken once
Once == /\ \A a \in acc : Cardinality({i \in DOMAIN took[a.e] : took[a.e][i].id = a.id}) + Cardinality({m \in edges[a.e].q : m.id = a.id}) = 1
        /\ \A e \in DOMAIN took : \A i \in DOMAIN took[e] : \E a \in acc : a.e = e /\ a.id = took[e][i].id
OrderOf(e, i) == CHOOSE a \in acc : a.e = e /\ a.id = took[e][i].id
\* a later one is not taken before an earlier one, unless that was not there yet
InOrder == \A e \in DOMAIN took : \A j \in DOMAIN took[e] : \A i \in 1..(j - 1) : Earlier(took[e][i], took[e][j]) \/ OrderOf(e, j).after >= i
\* what is emitted and posted comes out in the order, and at times which increase
Strict == \A e \in DOMAIN took : \A j \in DOMAIN took[e] : \A i \in 1..(j - 1) :
            (OrderOf(e, i).o # "sched" /\ OrderOf(e, j).o # "sched") => took[e][i].t < took[e][j].t /\ took[e][i].n < took[e][j].n
\* one block of an edge at a time
OneAtATime == \A e \in 1..NEdges : Cardinality({b \in Blocks : Into(b) = e /\ InF(b)}) <= 1
AllDone == phase = "over" => \A a \in acc : \E i \in DOMAIN took[a.e] : took[a.e][i].id = a.id
MCInv == Once /\ InOrder /\ Strict /\ OneAtATime /\ AllDone
Ends_ == <>(phase = "over")
===============================================================================

---------------------------------- MODULE Rip ----------------------------------
(* RipCurrent flows.  Every `|` of a flow is an edge: what its left side emits is kept, by time, until the head reaches it, and  *)
(* is then handed, one message at a time, to the block of its right side which takes this type.                                 *)
(*   edge: [head, n: how many messages were accepted, q: the set of what waits, fl: <<>> or <<what is being processed>>]        *)
(*   message: [id, y: its type, t, n: its number within the edge];  fl's are also "taken" or "in" the block (st)                *)
(*   route: the block for each edge and type;  into: for each block its edge, or 0;  out: likewise                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES flow, edges, ops, alive, clk
rvars == <<flow, edges, ops, alive, clk>>
Max2(a, b) == IF a > b THEN a ELSE b
Edge == [head |-> -1000, n |-> 0, q |-> {}, fl |-> <<>>]
NEdges == Len(flow.route)
Out(b) == flow.out[b]
Into(b) == flow.into[b]
Due(e) == {m \in edges[e].q : m.t <= edges[e].head}
Earlier(a, b) == a.t < b.t \/ (a.t = b.t /\ a.n < b.n)
First(e) == CHOOSE m \in Due(e) : \A x \in Due(e) : x = m \/ Earlier(m, x)
RipInit(f) == flow = f /\ edges = [e \in 1..Len(f.route) |-> Edge] /\ ops = {} /\ alive = {} /\ clk = -1

(* A block emits (emit, post), schedules, or moves the head.  lo, hi: what the time was before and after it did. *)
Call(th, b, o, y, id, lo, hi, us) ==
  /\ ~\E x \in ops : x.th = th
  /\ ops' = ops \cup {[th |-> th, b |-> b, e |-> Out(b), o |-> o, y |-> y, id |-> id, lo |-> lo, hi |-> hi, us |-> us, st |-> "new"]}
  /\ UNCHANGED <<flow, edges, alive, clk>>
(* ..which is accepted, at the time t, unless the head is there already.  The time an emitted message gets is the present one: nothing else can be later. *)
Accept(x, t) ==
  LET ed == edges[x.e] ok == x.o = "sched" \/ t > ed.head
      hd == IF x.o = "sched" \/ ~ok THEN ed.head ELSE t
      m == [id |-> x.id, y |-> x.y, t |-> t, n |-> ed.n + 1]
  IN /\ edges' = [edges EXCEPT ![x.e] = IF ok /\ x.o # "head" THEN [ed EXCEPT !.head = hd, !.n = @ + 1, !.q = @ \cup {m}] ELSE [ed EXCEPT !.head = hd]]
     /\ ops' = (ops \ {x}) \cup {[x EXCEPT !.st = IF ok THEN "ok" ELSE "refused"]}
     /\ clk' = IF x.o = "emit" THEN t ELSE clk
     /\ UNCHANGED <<flow, alive>>
(* Whoever called learns through the error handler if it was refused. *)
Ret(th, ref) == \E x \in ops : x.th = th /\ x.st = (IF ref = 1 THEN "refused" ELSE "ok") /\ ops' = ops \ {x} /\ UNCHANGED <<flow, edges, alive, clk>>

Take(e) == /\ edges[e].fl = <<>> /\ Due(e) # {}
           /\ edges' = [edges EXCEPT ![e].fl = <<[m |-> First(e), st |-> "taken"]>>, ![e].q = @ \ {First(e)}]
           /\ UNCHANGED <<flow, ops, alive, clk>>
(* The block's f() is called, and returns. *)
In(b, id, y) == LET e == Into(b) IN
  /\ b \in alive /\ e # 0 /\ edges[e].fl # <<>> /\ edges[e].fl[1].st = "taken" /\ edges[e].fl[1].m.id = id /\ edges[e].fl[1].m.y = y /\ flow.route[e][y] = b
  /\ edges' = [edges EXCEPT ![e].fl[1].st = "in"] /\ UNCHANGED <<flow, ops, alive, clk>>
Done(b, id) == LET e == Into(b) IN
  /\ e # 0 /\ edges[e].fl # <<>> /\ edges[e].fl[1].st = "in" /\ edges[e].fl[1].m.id = id
  /\ edges' = [edges EXCEPT ![e].fl = <<>>] /\ UNCHANGED <<flow, ops, alive, clk>>
(* Blocks exist before they can be handed anything, and until they have been handed everything that is due. *)
Born(b) == b \notin alive /\ alive' = alive \cup {b} /\ UNCHANGED <<flow, edges, ops, clk>>
Idle(e) == edges[e].fl = <<>> /\ Due(e) = {}
Gone(b) == b \in alive /\ (Into(b) # 0 => Idle(Into(b))) /\ alive' = alive \ {b} /\ UNCHANGED <<flow, edges, ops, clk>>
(* Once the flow has been joined everything is over. *)
Over == alive = {} /\ ops = {} /\ \A e \in 1..NEdges : Idle(e)
===============================================================================

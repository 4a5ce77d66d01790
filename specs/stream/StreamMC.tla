------------------------------ MODULE StreamMC ------------------------------
(* Every subscriber gets exactly its range, in order; every subscription ends when asked to; authority is exclusive. The subscriber threads
   are fair: whenever there is an entry, a newer head or a request to terminate, they go on.  got: what each subscriber was told.          *)
EXTENDS Stream
CONSTANTS Pubs, SubSet, MaxOps, MaxUs, Flip
VARIABLES got, cnt
vars == <<svars, got, cnt>>
Descr == [begin : {0, 1}, from : {None, 2}, flt : {FALSE}]
InitMC == log = <<>> /\ head = None /\ Init0 /\ got = [k \in SubSet |-> <<>>] /\ cnt = 0
G(k, x) == got' = [got EXCEPT ![k] = Append(@, x)]
MH == Hidden /\ UNCHANGED <<got, cnt>>
MRet == (\E x \in ops : Ret(x.id, x.f, x.idx, x.us)) /\ UNCHANGED <<got, cnt>>
MSub(k) == /\ k \in DOMAIN subs
           /\ \/ \E i \in 0..(Len(log) - 1), li \in 0..(Len(log) - 1) : Entry(k, log[i + 1].v, i, log[i + 1].us, li, log[li + 1].us) /\ G(k, i) /\ UNCHANGED cnt
              \/ \E us \in heads : HeadIs(k, us) /\ UNCHANGED <<got, cnt>>
              \/ Terminate(k) /\ UNCHANGED <<got, cnt>>
              \/ \E r \in {"more", "done"} : (r = "more" => ~subs[k].told) /\ (r = "done" => subs[k].told) /\ Answer(k, r) /\ UNCHANGED <<got, cnt>>
              \/ Done(k) /\ UNCHANGED <<got, cnt>>
N == cnt < MaxOps /\ cnt' = cnt + 1 /\ UNCHANGED got
C(id, o, h, v, us, d) == Call(id, o, h, v, us, us, 0, d)
NoDestroy == \A x \in ops : x.o # "destroy"
MCall == \/ \E i \in Pubs : /\ NoDestroy
              /\ \/ ~Flip /\ \E o \in {"pub", "head"}, us \in 1..MaxUs : N /\ C(i, o, 0, cnt, us, <<>>)
                 \/ Flip /\ N /\ (i \in DOMAIN hold => \E o \in {"hpub", "rel"} : C(i, o, i, cnt, cnt + 1, <<>>))
                         /\ (i \notin DOMAIN hold => \E o \in {"borrow", "follow", "master", "is"} : C(i, o, i, 0, 0, <<>>))
         \/ \E k \in SubSet : NoDestroy /\ UNCHANGED <<got, cnt>> /\ (k \notin DOMAIN subs) /\ \E d \in Descr : C(10 + k, "sub", k, 0, 0, d)
         \/ \E k \in SubSet : NoDestroy /\ UNCHANGED <<got, cnt>> /\ k \in DOMAIN subs /\ ~subs[k].req /\ C(10 + k, "unsub", k, 0, 0, <<>>)
         \/ ops = {} /\ cnt = MaxOps /\ DOMAIN hold = {} /\ UNCHANGED <<got, cnt>> /\ (\A k \in DOMAIN subs : subs[k].st = "gone") /\ C(99, "destroy", 0, 0, 0, <<>>)
\* whoever borrowed the publisher gives it back
MGive == \E i \in Pubs : i \in DOMAIN hold /\ UNCHANGED <<got, cnt>> /\ closing /\ C(i, "rel", i, 0, 0, <<>>)
Spec == /\ InitMC /\ [][MH \/ MRet \/ MCall \/ MGive \/ \E k \in SubSet : MSub(k)]_vars /\ SF_vars(MH) /\ WF_vars(MRet) /\ SF_vars(MGive) /\ \A k \in SubSet : SF_vars(MSub(k))
RangeExact == \A k \in DOMAIN subs : LET s == subs[k]
                                         want == {i \in 0..(s.next - 1) : Wants(s, i)} IN
                /\ \A a \in 2..Len(got[k]) : got[k][a] > got[k][a - 1]
                /\ {got[k][a] : a \in 1..Len(got[k])} = want
HeadTrue == \A k \in DOMAIN subs : subs[k].hd <= head
NothingAfterDone == [][\A k \in DOMAIN subs : subs[k].st \in {"fin", "done", "gone"} => got'[k] = got[k]]_vars
DoneOnce == [][\A k \in DOMAIN subs : subs[k].st = "gone" => subs'[k].st = "gone"]_vars
AppendOnly == [][Len(log') >= Len(log) /\ SubSeq(log', 1, Len(log)) = log /\ head' >= head]_vars
OnlyOwner == [][\A x \in ops : x.o = "hpub" /\ log' # log => hold[x.h] = gen]_vars
CaughtUp(k) == k \in DOMAIN subs => subs[k].req \/ head < subs[k].from \/ (subs[k].st = "run" /\ \A j \in subs[k].next..(Len(log) - 1) : ~Wants(subs[k], j))
CatchesUp == \A k \in SubSet : []<>CaughtUp(k)
Ends == \A k \in SubSet : (k \in DOMAIN subs /\ subs[k].req) ~> (k \in DOMAIN subs /\ subs[k].st = "gone")
Authority == (\E x \in ops : x.o \in {"follow", "master"}) ~> (\A x \in ops : x.o \notin {"follow", "master"})
=============================================================================

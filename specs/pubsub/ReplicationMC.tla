--------------------------- MODULE ReplicationMC ---------------------------
EXTENDS Replication, Json
CONSTANTS MaxPub, MaxHead, MaxBreak, MaxRaw
VARIABLES nb, nh, nr, script, steps
mvars == <<rvars, nb, nh, nr, script, steps>>
aux == <<nb, nh, nr, script, steps>>
Text(n) == "\"" \o ToString(n) \o "\""
NextUs == {head + 2, head + 3}
\* what a service which lies may say: nothing of it is the next entry or head, or it is the truth
Truth == IF Len(f.log) < Len(log) THEN <<[o |-> "pub", i |-> Len(f.log), us |-> log[Len(f.log) + 1].us, j |-> log[Len(f.log) + 1].j]>> ELSE <<>>
Lies == {[o |-> "bad", i |-> 0, us |-> 0, j |-> ""], [o |-> "junk", i |-> 0 - 2, us |-> 0 - 2, j |-> ""], [o |-> "head", i |-> 0, us |-> f.head, j |-> ""],
         [o |-> "pub", i |-> Len(f.log) + 2, us |-> f.head + 5, j |-> "\"L\""], [o |-> "pub", i |-> Len(f.log), us |-> f.head, j |-> "\"L\""]}
         \cup (IF f.log = <<>> THEN {} ELSE {[o |-> "pub", i |-> Len(f.log) - 1, us |-> f.log[Len(f.log)].us, j |-> f.log[Len(f.log)].j]})
MCInit == Init0 /\ f = F0 /\ nb = 0 /\ nh = 0 /\ nr = 0 /\ script = <<>> /\ steps = 0
MCNext == /\ UNCHANGED <<script, steps>>
          /\ \/ /\ UNCHANGED <<nb, nr>>
                /\ \/ Len(log) < MaxPub /\ w = None /\ (\E u \in NextUs : Call([o |-> "pub", us |-> u, j |-> Text(Len(log))])) /\ UNCHANGED <<f, nh>>
                   \/ nh < MaxHead /\ (\E u \in NextUs : Call([o |-> "head", us |-> u, j |-> ""])) /\ nh' = nh + 1 /\ UNCHANGED f
             \/ /\ UNCHANGED <<nb, nh, nr>>
                /\ \/ (Commit \/ Ret \/ Serve(0) \/ Entry \/ HeadIs(head)) /\ UNCHANGED f
                   \/ \E from \in {0, f.head + 1} : nb = 0 /\ Start(from)
                   \/ (c.st = "none" \/ RawOver) /\ Connect
                   \/ \E l \in 1..Len(log) : Rx("pub", l - 1, log[l].us, log[l].j)
                   \/ \E u \in heads : Rx("head", 0 - 1, u, "")
                   \/ c.st = "raw" /\ c.say # <<>> /\ Rx(IF c.say[1].o = "junk" THEN "pub" ELSE c.say[1].o, c.say[1].i, c.say[1].us, c.say[1].j)
                   \/ FCommit \/ (\E ok \in BOOLEAN : FRet(ok))
             \/ /\ UNCHANGED <<nh, nr>> /\ nb < MaxBreak /\ nb' = nb + 1
                /\ \/ c.st \in {"sent", "open", "raw"} /\ c' = Fresh /\ UNCHANGED <<log, head, heads, w, req, f>>
                   \/ Stop
                   \/ \E from \in {0, f.head + 1} : nb > 0 /\ Start(from)
             \/ /\ UNCHANGED <<nb, nh>> /\ nr < MaxRaw /\ nr' = nr + 1 /\ c.st = "sent"
                /\ \E x \in Lies : Raw(<<x>>) \/ Raw(Truth \o <<x>>)
MCSpec == MCInit /\ [][MCNext]_mvars
\* what goes on by itself
Going == /\ UNCHANGED aux
         /\ \/ (Commit \/ Ret \/ Serve(0) \/ Entry \/ HeadIs(head)) /\ UNCHANGED f
            \/ (c.st = "none" \/ RawOver) /\ Connect
            \/ \E l \in 1..Len(log) : Rx("pub", l - 1, log[l].us, log[l].j)
            \/ \E u \in heads : Rx("head", 0 - 1, u, "")
            \/ c.st = "raw" /\ c.say # <<>> /\ Rx(IF c.say[1].o = "junk" THEN "pub" ELSE c.say[1].o, c.say[1].i, c.say[1].us, c.say[1].j)
            \/ FCommit \/ (\E ok \in BOOLEAN : FRet(ok))
MCLive == MCSpec /\ WF_mvars(Going)
MCInv == Faithful
CatchesUp == f.on ~> (InSync \/ ~f.on)
\* when nothing is going on, the follower has it all
Quiet == f.on /\ ~ENABLED Going => InSync
\* ---------------------------------------------------------------- programs for the implementation: everything waits for everything
Do(x) == script' = Append(script, x)
Set(l, h, hs, on) == log' = l /\ head' = h /\ heads' = hs /\ f' = [F0 EXCEPT !.on = on] /\ UNCHANGED <<w, c, req>>
GenNext == /\ steps < MaxPub + MaxHead + MaxBreak /\ steps' = steps + 1 /\ UNCHANGED nr
           /\ \/ Len(log) < MaxPub /\ Set(Append(log, [us |-> head + 2, j |-> ""]), head + 2, {}, f.on) /\ Do(<<"pub", head + 2>>) /\ UNCHANGED <<nb, nh>>
              \/ nh < MaxHead /\ nh' = nh + 1 /\ Set(log, head + 2, {}, f.on) /\ Do(<<"head", head + 2>>) /\ UNCHANGED nb
              \/ ~f.on /\ nb < MaxBreak /\ nb' = nb + 1 /\ Set(log, head, {}, TRUE) /\ Do(<<"start">>) /\ UNCHANGED nh
              \/ f.on /\ nb < MaxBreak /\ nb' = nb + 1 /\ UNCHANGED nh
                   /\ \/ Set(log, head, {}, FALSE) /\ Do(<<"stop">>)
                      \/ Set(log, head, {}, TRUE) /\ (\E x \in {"break", "bad", "old", "truth", "cut"} : Do(<<x>>))
GenSpec == MCInit /\ [][GenNext]_mvars
GenPrint == (steps' = MaxPub + MaxHead + MaxBreak) => PrintT("GEN " \o ToJson(script'))
=============================================================================

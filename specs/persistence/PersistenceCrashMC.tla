------------------------- MODULE PersistenceCrashMC -------------------------
(* The file as the code writes it, with a crash at any point: lines on disk, a possibly torn last line,
   and recovery.  Checked: recovery yields exactly a prefix of what was acknowledged plus at most the one
   operation in flight, or refuses because of a torn line; and a file the persister wrote always loads. *)
EXTENDS PersistenceCrash
CONSTANTS TS, MaxLen
VARIABLES disk, torn, st, inflight, up
vars == <<disk, torn, st, inflight, up>>
Init == disk = <<[k |-> "sig"]>> /\ torn = FALSE /\ st = InitSt /\ inflight = <<>> /\ up = TRUE
LastIsHead == disk[Len(disk)].k = "head"
LineOf(o) == IF o.op = "pub" THEN [k |-> "entry", i |-> Size(st), us |-> o.us, e |-> o.e] ELSE [k |-> "head", us |-> o.us]
Begin(o) == up /\ inflight = <<>> /\ Apply(st, o).res.r = "ok" /\ Size(st) < MaxLen + (IF o.op = "head" THEN 1 ELSE 0)
            /\ inflight' = <<o>> /\ UNCHANGED <<disk, torn, st, up>>
Finish == up /\ inflight # <<>> /\ LET o == Head(inflight) IN
            /\ st' = Apply(st, o).st
            /\ disk' = IF o.op = "head" /\ LastIsHead THEN [disk EXCEPT ![Len(disk)] = LineOf(o)] ELSE Append(disk, LineOf(o))
            /\ inflight' = <<>> /\ UNCHANGED <<torn, up>>
CrashTorn == up /\ inflight # <<>> /\ torn' = TRUE /\ up' = FALSE /\ UNCHANGED <<disk, st, inflight>>
CrashAfterWrite == up /\ inflight # <<>> /\ LET o == Head(inflight) IN
            /\ disk' = IF o.op = "head" /\ LastIsHead THEN [disk EXCEPT ![Len(disk)] = LineOf(o)] ELSE Append(disk, LineOf(o))
            /\ up' = FALSE /\ UNCHANGED <<torn, st, inflight>>
CrashIdle == up /\ up' = FALSE /\ UNCHANGED <<disk, torn, st, inflight>>
Recover == ~up /\ ~torn /\ st' = LoadFile(disk).st /\ inflight' = <<>> /\ up' = TRUE /\ UNCHANGED <<disk, torn>>
Next == (\E us \in TS : Begin([op |-> "pub", us |-> us, e |-> "a"]) \/ Begin([op |-> "head", us |-> us]))
        \/ Finish \/ CrashTorn \/ CrashAfterWrite \/ CrashIdle \/ Recover
Spec == Init /\ [][Next]_vars
Core(s) == [log |-> s.log, head |-> s.head]
AlwaysLoads == LoadFile(disk).r = "ok"
RecoveryExact == LET d == Core(LoadFile(disk).st) IN
   \/ d = Core(st)
   \/ inflight # <<>> /\ d = Core(Apply(st, Head(inflight)).st)
DurableWhenIdle == (up /\ inflight = <<>>) => Core(LoadFile(disk).st) = Core(st)
=============================================================================

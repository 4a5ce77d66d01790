-------------------------- MODULE PersistenceCrash --------------------------
(* What may be found on disk after a crash, and what opening a file must do.

   A write of one log line (entry, head directive, signature) is not atomic: the crash may leave any
   byte prefix of it.  The head timestamp may also be rewritten in place.  The harness constructs every
   such file from the real bytes the persister wrote and opens it with the real code.

   LoadFile is the reference semantics of opening a file: a sequence of abstract lines.            *)
EXTENDS Persistence

DumpIs(out, es, head) == out.r = "ok" /\ out.es = es /\ out.head = head
(* ... and what was opened must keep working: publish, move the head twice, open again. *)
Usable(out) ==
  LET n == Len(out.es) IN
    /\ out.after.r = "ok"
    /\ out.after.i = n
    /\ out.after.es = Append(out.es, [i |-> n, us |-> out.head + 7, e |-> "after-crash"])
    /\ out.after.head = out.head + 11

OutOk(s0, s1, out) ==
  LET Is(s) == DumpIs(out, Slice(s, 0, Size(s)), s.head) /\ Usable(out) IN
  CASE out.at = "before"  -> Is(s0)
    [] out.at = "after"   -> Is(s1)
    [] out.at = "torn"    -> out.r = "refused" \/ Is(s0) \/ Is(s1)
    [] out.at = "rewrite" -> out.r = "refused" \/
                             (out.r = "ok" /\ out.es = Slice(s0, 0, Size(s0)) /\ out.head >= s0.head /\ Usable(out))

CrashOk(st, o, res) ==
  LET a == Apply(st, o.inner)
  IN /\ res.r = "ok" /\ res.inner = a.res
     /\ \A k \in 1..Len(res.outs) : OutOk(st, a.st, res.outs[k])
CreateOk(res) == res.r = "ok" /\ \A k \in 1..Len(res.outs) : OutOk(InitSt, InitSt, res.outs[k])

(* --- opening a file ------------------------------------------------------------------------- *)
(* line: [k : "entry", i, us, e] | [k : "head", us] | [k : "sig"] | [k : "badsig"] | [k : "dir"] | [k : "junk"] *)
RECURSIVE Load(_, _, _, _)
Load(s, minus, lines, first) ==
  IF lines = <<>> THEN [r |-> "ok", st |-> s]
  ELSE LET x == Head(lines) IN
    CASE x.k = "entry" ->
           IF x.i # Size(s) THEN [r |-> "InconsistentIndex"]
           ELSE IF x.us < minus \/ x.us <= s.head THEN [r |-> "InconsistentTimestamp"]
           ELSE Load(Append1(s, x.us, x.e), x.us + 1, Tail(lines), FALSE)
      [] x.k = "head" ->
           IF x.us <= s.head THEN [r |-> "InconsistentTimestamp"]
           ELSE Load([s EXCEPT !.head = x.us], minus, Tail(lines), FALSE)
      [] x.k = "sig" -> IF first THEN Load(s, minus, Tail(lines), FALSE) ELSE [r |-> "SignatureLocation"]
      [] x.k = "badsig" -> IF first THEN [r |-> "BadSignature"] ELSE [r |-> "SignatureLocation"]
      [] x.k = "dir" -> Load(s, minus, Tail(lines), FALSE)
      [] x.k = "junk" -> [r |-> "Malformed"]
LoadFile(lines) == Load(InitSt, 0, lines, TRUE)

LoadOk(o, res) ==
  LET a == LoadFile(o.lines)
  IN IF a.r = "ok" THEN DumpIs(res, Slice(a.st, 0, Size(a.st)), a.st.head) /\ Usable(res)
                   ELSE res.r = a.r

Accept(st, o, res) ==
  CASE o.op = "crash"  -> CrashOk(st, o, res)
    [] o.op = "create" -> CreateOk(res)
    [] o.op = "load"   -> LoadOk(o, res)
    [] OTHER           -> Apply(st, o).res = res
After(st, o) == CASE o.op = "crash" -> Apply(st, o.inner).st
                  [] o.op \in {"create", "load"} -> st
                  [] OTHER -> Apply(st, o).st
=============================================================================

------------------------------ MODULE HttpTrace ------------------------------
(* Recorded: what was sent on a connection, and what the server made of it. *)
EXTENDS Http, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
SetOf(s) == { s[i] : i \in 1..Len(s) }
Right(r, st) == /\ st.mode = "done" /\ r.m = st.m /\ r.p = st.p /\ r.b = st.body
                /\ r.h = Headers(st.hs, 1, <<>>) /\ SetOf(r.ck) = CookieSet(st.hs)
\* A path which the server can look up: it begins with one slash (no path at all means "/").
Plain(p) == p = <<>> \/ (p[1] = 47 /\ (Len(p) = 1 \/ p[2] # 47))
Judge(e, st) ==
  LET seen == e.end \in {"half", "keep"} IN
  CASE st.mode = "any" -> TRUE
    [] st.mode = "done" /\ (e.buf > 0 \/ Plain(st.p)) ->
         IF e.end = "reset" THEN e.got = 1 => Right(e.r, st)
         ELSE e.got = 1 /\ Right(e.r, st) /\ (seen => e.code = 200)
    [] st.mode = "done" ->           \* an unusual URL: understood, not found, or refused
         /\ e.got = 1 => Right(e.r, st)
         /\ seen => (IF e.got = 1 THEN e.code = 200 ELSE e.code \in {0, 404})
    [] st.mode \in {"e400", "e411", "e413"} ->
         e.got = 0 /\ (seen => e.code = (CASE st.mode = "e400" -> 400 [] st.mode = "e411" -> 411 [] OTHER -> 413))
    [] OTHER -> e.got = 0 /\ e.code = 0                              \* incomplete, or no URL: nothing is answered
TraceInit == tid \in 1..Len(Traces) /\ l = 1
Consume(e) == e.k = "conn" /\ LET st == Parse(e.in) IN Judge(e, st)
TraceNext == /\ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T) => PrintT(<<"ACC", tid>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================

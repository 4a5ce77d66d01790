---------------------------- MODULE Persistence ----------------------------
(* The persistence layer of Current (blocks/persistence/{memory,file}.h behind blocks/ss/persister.h):
   an append-only log of entries with contiguous zero-based indexes and strictly increasing
   microsecond timestamps, plus a "head" timestamp which never goes back and which every entry and
   every head update must exceed.

   The transition function Apply(st, op) is total: it maps every state and every operation of the
   public API to the next state and to the result the caller must observe (values or the class of the
   exception).  An operation which reports an error leaves the state unchanged.

   st.log  : sequence of [us, e]                 (index of log[k] is k-1)
   st.head : -1 on an empty log, else timestamp of the last entry or of a later head update
   st.its  : slots with open iterators: a snapshot of the requested index range, [pos, end]         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt == [log |-> <<>>, head |-> -1, its |-> [k \in 0..1 |-> [pos |-> 0, end |-> 0]]]

Size(st) == Len(st.log)
Rec(st, k) == [i |-> k - 1, us |-> st.log[k].us, e |-> st.log[k].e]
Slice(st, b, e) == [k \in 1..(e - b) |-> Rec(st, b + k)]

Same(st, res) == [st |-> st, res |-> res]
Err(st, x) == Same(st, [r |-> x])

Append1(st, us, e) == [st EXCEPT !.log = Append(@, [us |-> us, e |-> e]), !.head = us]

(* --- operations ------------------------------------------------------------------------------- *)
Publish(st, us, e) ==
  IF us > st.head
    THEN [st |-> Append1(st, us, e), res |-> [r |-> "ok", i |-> Size(st), us |-> us]]
    ELSE Err(st, "InconsistentTimestamp")

(* A pre-formatted log line: its index must be the next one, its timestamp must exceed the head. *)
PublishRaw(st, i, us, e) ==
  IF i # Size(st) THEN Err(st, "BadIndex")
  ELSE IF ~(us > st.head) THEN Err(st, "InconsistentTimestamp")
  ELSE [st |-> Append1(st, us, e), res |-> [r |-> "ok", i |-> i, us |-> us]]

UpdateHead(st, us) ==
  IF us > st.head THEN [st |-> [st EXCEPT !.head = us], res |-> [r |-> "ok"]]
                  ELSE Err(st, "InconsistentTimestamp")

Last(st) == IF Size(st) = 0 THEN Err(st, "NoEntries")
            ELSE Same(st, [r |-> "ok", i |-> Size(st) - 1, us |-> st.log[Size(st)].us])

(* Everything the non-failing accessors report. *)
Info(st) == Same(st, [r |-> "ok", size |-> Size(st), empty |-> (Size(st) = 0), head |-> st.head, hhead |-> st.head,
                      hlast |-> IF Size(st) = 0 THEN [i |-> -1, us |-> -1]
                                ELSE [i |-> Size(st) - 1, us |-> st.log[Size(st)].us]])

(* First index with timestamp >= from, first index with timestamp > till; -1 for none / for till <= 0. *)
FirstIdx(st, P(_)) == LET S == {k \in 1..Size(st) : P(st.log[k].us)}
                      IN IF S = {} THEN -1 ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
RangeFirst(st, from) == FirstIdx(st, LAMBDA t : t >= from)
RangeSecond(st, till) == IF till <= 0 THEN -1 ELSE FirstIdx(st, LAMBDA t : t > till)
IndexRange(st, from, till) == Same(st, [r |-> "ok", b |-> RangeFirst(st, from), e |-> RangeSecond(st, till)])

RangeErr(st, b, e0) == LET e == IF e0 = -1 THEN Size(st) ELSE e0
                       IN \/ e > Size(st) \/ (b # e /\ (b >= Size(st) \/ e < b))
RangeEnd(st, e0) == IF e0 = -1 THEN Size(st) ELSE e0

Iterate(st, b, e) ==
  IF RangeErr(st, b, e) THEN Err(st, "InvalidRange")
  ELSE Same(st, [r |-> "ok", es |-> Slice(st, b, RangeEnd(st, e))])

IterateTs(st, from, till) ==
  IF till > 0 /\ till < from THEN Err(st, "InvalidRange")
  ELSE IF RangeFirst(st, from) = -1 THEN Same(st, [r |-> "ok", es |-> <<>>])
  ELSE Iterate(st, RangeFirst(st, from), RangeSecond(st, till))

(* An iterator is a snapshot of a range: entries published later do not show up in it, and the
   entries in it do not change. *)
OpenIter(st, k, b, e) ==
  IF RangeErr(st, b, e) THEN Err(st, "InvalidRange")
  ELSE [st |-> [st EXCEPT !.its[k] = IF b = RangeEnd(st, e) THEN [pos |-> 0, end |-> 0]
                                     ELSE [pos |-> b, end |-> RangeEnd(st, e)]],
        res |-> [r |-> "ok"]]
NextIter(st, k) ==
  IF st.its[k].pos = st.its[k].end THEN Err(st, "end")
  ELSE [st |-> [st EXCEPT !.its[k].pos = @ + 1], res |-> [r |-> "ok", es |-> <<Rec(st, st.its[k].pos + 1)>>]]

(* Opening the same storage again yields the same log and the same head. *)
Dump(st) == [r |-> "ok", head |-> st.head, es |-> Slice(st, 0, Size(st))]
Reopen(st) == [st |-> [st EXCEPT !.its = InitSt.its], res |-> Dump(st)]

Apply(st, o) ==
  CASE o.op = "pub"     -> Publish(st, o.us, o.e)
    [] o.op = "raw"     -> PublishRaw(st, o.i, o.us, o.e)
    [] o.op = "rawbad"  -> Err(st, "Malformed")
    [] o.op = "head"    -> UpdateHead(st, o.us)
    [] o.op = "last"    -> Last(st)
    [] o.op = "info"    -> Info(st)
    [] o.op = "range"   -> IndexRange(st, o.from, o.till)
    [] o.op = "iter"    -> Iterate(st, o.b, o.e)
    [] o.op = "iteru"   -> Iterate(st, o.b, o.e)      \* raw lines, parsed by the harness
    [] o.op = "itert"   -> IterateTs(st, o.from, o.till)
    [] o.op = "itertu"  -> IterateTs(st, o.from, o.till)
    [] o.op = "open"    -> OpenIter(st, o.k, o.b, o.e)
    [] o.op = "next"    -> NextIter(st, o.k)
    [] o.op = "reopen"  -> Reopen(st)
    [] o.op = "copy"    -> Same(st, Dump(st))         \* a second process opening a copy of the file

(* --- properties of the design ------------------------------------------------------------------ *)
StrictlyIncreasing(st) == \A k \in 1..(Size(st) - 1) : st.log[k].us < st.log[k + 1].us
HeadBound(st) == IF Size(st) = 0 THEN st.head >= -1 ELSE st.head >= st.log[Size(st)].us
RangeExact(st, from, till) ==   \* a timestamp range is exactly the entries inside it
  LET a == IterateTs(st, from, till).res
  IN a.r = "ok" => {a.es[k] : k \in 1..Len(a.es)} =
                   {Rec(st, k) : k \in {j \in 1..Size(st) : st.log[j].us >= from /\ (till <= 0 \/ st.log[j].us <= till)}}
=============================================================================

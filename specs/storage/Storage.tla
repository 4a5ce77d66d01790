------------------------------- MODULE Storage -------------------------------
(* A storage: containers (dictionaries and matrices) changed by transactions, and the journal of what has been committed.

   A key is a pair <<row, col>> (a dictionary: <<key, 0>>).  `ent[c]` maps the keys of container c to values, `lm[c]` the keys
   ever changed to the time of their last change.  Everything the accessors of a container show is a function of these two.

   A mutation of the user is a set of primitive ones: "U" (element added or replaced) or "D" (element erased); in a one-to-one
   or a one-to-many container an addition first erases the elements it conflicts with.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

DictNames == {"Du", "Do"}
OneOneNames == {"Ouu", "Ooo", "Ouo", "Oou"}
OneManyNames == {"Nuu", "Noo", "Nuo", "Nou"}
ManyManyNames == {"Muu", "Moo", "Muo", "Mou"}

VARIABLES ent,      \* [container -> [key -> value]]
          lm,       \* [container -> [key -> us]]
          tx,       \* the transaction which runs (they run one at a time), or NoTx
          journal,  \* sequence of [us, begin, end, meta, muts]
          clock,    \* the latest time anything has happened at
          down      \* graceful shutdown has been requested
svars == <<ent, lm, tx, journal, clock, down>>

NoTx == [on |-> FALSE]
Empty == [x \in {} |-> 0]
Get(f, c) == IF c \in DOMAIN f THEN f[c] ELSE Empty   \* containers appear as they are used
Set(f, c, v) == [x \in (DOMAIN f) \cup {c} |-> IF x = c THEN v ELSE f[x]]
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

---------------------------------------------------------------------------
\* What a mutation does.
Conflicts(c, e, key) ==
  IF key \in DOMAIN e THEN {}
  ELSE IF c \in OneOneNames THEN {k \in DOMAIN e : k[1] = key[1] \/ k[2] = key[2]}
  ELSE IF c \in OneManyNames THEN {k \in DOMAIN e : k[2] = key[2]}
  ELSE {}
U(key, v) == [t |-> "U", key |-> key, v |-> v]
D(key) == [t |-> "D", key |-> key, v |-> 0]
Prims(c, op, key, v) ==
  LET e == Get(ent, c) IN
  CASE op = "add" -> {U(key, v)} \cup {D(k) : k \in Conflicts(c, e, key)}
    [] op = "readd" -> IF key \in DOMAIN e THEN {U(key, e[key])} ELSE {}
    [] op = "erase" -> IF key \in DOMAIN e THEN {D(key)} ELSE {}
    [] op = "eraserow" -> IF c \in OneOneNames THEN {D(k) : k \in {x \in DOMAIN e : x[1] = key[1]}} ELSE {}
    [] op = "erasecol" -> IF c \in OneOneNames \cup OneManyNames THEN {D(k) : k \in {x \in DOMAIN e : x[2] = key[2]}} ELSE {}
PrimEnt(e, p) == IF p.t = "U" THEN With(e, p.key, p.v) ELSE Without(e, p.key)
\* `us` gives the times of the primitive mutations: later than everything before, and the addition comes after the evictions.
TimesOk(ps, us) == \A p \in ps : /\ us[p.key] > clock
                                 /\ \A q \in ps : q # p => us[q.key] # us[p.key]
                                 /\ p.t = "U" => \A q \in ps : us[q.key] <= us[p.key]
InOrder(c, ps, us) == SetToSortSeq({[c |-> c, t |-> p.t, key |-> p.key, v |-> p.v, us |-> us[p.key]] : p \in ps},
                                   LAMBDA a, b : a.us < b.us)
\* Applying one journalled mutation to <<entities, times>>.
Step(s, m) == <<Set(s[1], m.c, PrimEnt(Get(s[1], m.c), m)), Set(s[2], m.c, With(Get(s[2], m.c), m.key, m.us))>>
RECURSIVE ApplyAll(_, _)
ApplyAll(s, ms) == IF ms = <<>> THEN s ELSE ApplyAll(Step(s, Head(ms)), Tail(ms))
RECURSIVE Replay(_, _)
Replay(s, js) == IF js = <<>> THEN s ELSE Replay(ApplyAll(s, Head(js).muts), Tail(js))
Nothing == <<Empty, Empty>>
\* How a mutation is taken back.
TakeBack(m) == [c |-> m.c, key |-> m.key, had |-> m.key \in DOMAIN Get(ent, m.c), hadlm |-> m.key \in DOMAIN Get(lm, m.c),
               v |-> IF m.key \in DOMAIN Get(ent, m.c) THEN Get(ent, m.c)[m.key] ELSE 0,
               us |-> IF m.key \in DOMAIN Get(lm, m.c) THEN Get(lm, m.c)[m.key] ELSE 0]
RECURSIVE Undo(_, _)
Undo(s, us) == IF us = <<>> THEN s
               ELSE LET u == us[Len(us)]
                        e == Get(s[1], u.c)
                        t == Get(s[2], u.c)
                    IN Undo(<<Set(s[1], u.c, IF u.had THEN With(e, u.key, u.v) ELSE Without(e, u.key)),
                              Set(s[2], u.c, IF u.hadlm THEN With(t, u.key, u.us) ELSE Without(t, u.key))>>, Front(us))

---------------------------------------------------------------------------
\* Transactions.
Init == ent = Empty /\ lm = Empty /\ tx = NoTx /\ journal = <<>> /\ clock = -1 /\ down = FALSE
Begin(rw) == /\ ~tx.on
             /\ tx' = [on |-> TRUE, rw |-> rw, ent |-> ent, lm |-> lm, clock |-> clock, muts |-> <<>>, undo |-> <<>>, meta |-> Empty]
             /\ UNCHANGED <<ent, lm, journal, clock, down>>
Op(c, op, key, v, us) ==
  /\ tx.on /\ tx.rw /\ ~down
  /\ LET ps == Prims(c, op, key, v) IN
     /\ TimesOk(ps, us)
     /\ LET ms == InOrder(c, ps, us)
            s == ApplyAll(<<ent, lm>>, ms)
        IN /\ ent' = s[1] /\ lm' = s[2]
           /\ tx' = [tx EXCEPT !.muts = @ \o ms, !.undo = @ \o [i \in 1..Len(ms) |-> TakeBack(ms[i])]]
           /\ clock' = IF ps = {} THEN clock ELSE ms[Len(ms)].us
  /\ UNCHANGED <<journal, down>>
SetMeta(k, v) == /\ tx.on /\ tx.rw /\ ~down
                 /\ tx' = [tx EXCEPT !.meta = With(@, k, v)]
                 /\ UNCHANGED <<ent, lm, journal, clock, down>>
UnsetMeta(k) == /\ tx.on /\ tx.rw /\ ~down
                /\ tx' = [tx EXCEPT !.meta = Without(@, k)]
                /\ UNCHANGED <<ent, lm, journal, clock, down>>
\* The function returned: what it did becomes one journal entry (none if it did nothing).
Commit(begin, end, us) ==
  /\ tx.on /\ ~down
  /\ IF tx.muts = <<>> THEN UNCHANGED <<journal, clock>>
     ELSE /\ begin > tx.clock /\ begin < tx.muts[1].us /\ tx.muts[Len(tx.muts)].us < end /\ end < us
          /\ journal' = Append(journal, [us |-> us, begin |-> begin, end |-> end, meta |-> tx.meta, muts |-> tx.muts])
          /\ clock' = us
  /\ tx' = NoTx /\ UNCHANGED <<ent, lm, down>>
\* The function threw, or asked for a rollback: nothing has happened.
Abort == /\ tx.on
         /\ ent' = tx.ent /\ lm' = tx.lm
         /\ tx' = NoTx /\ UNCHANGED <<journal, clock, down>>
Shutdown == ~tx.on /\ down' = TRUE /\ UNCHANGED <<ent, lm, tx, journal, clock>>
Reopen == /\ ~tx.on
          /\ LET s == Replay(Nothing, journal) IN ent' = s[1] /\ lm' = s[2]
          /\ down' = FALSE
          /\ UNCHANGED <<tx, journal, clock>>
\* What the caller of a transaction is told: how it ended ("ret", "throw", "rb", "rbv" = rollback with a value), whether the follow-up
\* of a two-step transaction was called and with what, and how the follow-up ended.
Outcome(rw, how, two, f2, n) ==
  LET called == two /\ how \in {"ret", "rbv"}
  IN [f2n |-> IF called THEN 1 ELSE 0,
      f2v |-> IF called THEN n ELSE -1,
      st |-> CASE called /\ f2 # "ret" ->              \* (the follow-up cannot undo anything, its failure is passed on as an exception;
                    IF (rw /\ how = "ret") \/ f2 = "throw" THEN {"exc"} ELSE {"exc", "rolledback"}   \* unless nothing has happened anyway)
               [] how = "ret" -> {"committed"}
               [] how = "throw" -> {"exc"}
               [] OTHER -> {"rolledback"},
      val |-> IF two \/ how \notin {"ret", "rbv"} THEN -1 ELSE n]

---------------------------------------------------------------------------
\* What the accessors show.
KeyLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(ks) == SetToSortSeq(ks, KeyLess)
Less(a, b) == a < b
Pairs(f) == LET ks == Sorted(DOMAIN f) IN [i \in 1..Len(ks) |-> <<ks[i], f[ks[i]]>>]
View(f, i) ==   \* i = 1: by row, i = 2: by column
  LET outer == SetToSortSeq({k[i] : k \in DOMAIN f}, Less)
      inner(x) == LET ks == Sorted({k \in DOMAIN f : k[i] = x}) IN [j \in 1..Len(ks) |-> <<ks[j][3 - i], f[ks[j]]>>]
  IN [j \in 1..Len(outer) |-> <<outer[j], inner(outer[j])>>]
Space == (0..3) \X (0..3)
Free(c, f) == IF c \in ManyManyNames THEN <<>>
              ELSE Sorted({k \in Space : (c \in OneOneNames => \A x \in DOMAIN f : x[1] # k[1]) /\ (\A x \in DOMAIN f : x[2] # k[2])})
Shows(s, c, d) ==
  LET e == Get(s[1], c) t == Get(s[2], c) p == Pairs(e) IN
  /\ d.size = Cardinality(DOMAIN e)
  /\ d.empty = (DOMAIN e = {})
  /\ d.items = p
  /\ d.look = <<p>>
  /\ d.lm = Pairs(t)
  /\ c \notin DictNames => d.rows = <<View(e, 1)>> /\ d.cols = <<View(e, 2)>> /\ d.free = Free(c, e)
AllShown(s, d) == \A c \in DOMAIN d : Shows(s, c, d[c])

---------------------------------------------------------------------------
\* Properties.
OneToOneHolds == \A c \in (DOMAIN ent) \cap OneOneNames : \A a, b \in DOMAIN ent[c] : a # b => a[1] # b[1] /\ a[2] # b[2]
OneToManyHolds == \A c \in (DOMAIN ent) \cap OneManyNames : \A a, b \in DOMAIN ent[c] : a # b => a[2] # b[2]
EveryElementDated == \A c \in DOMAIN ent : DOMAIN ent[c] \subseteq DOMAIN Get(lm, c)
\* Containers without elements which were never changed and those which do not appear yet are the same.
Same(s, t) == \A c \in DOMAIN s[1] \cup DOMAIN t[1] : Get(s[1], c) = Get(t[1], c) /\ Get(s[2], c) = Get(t[2], c)
ReplayExact == ~tx.on => Same(Replay(Nothing, journal), <<ent, lm>>)
UndoExact == tx.on => Same(Undo(<<ent, lm>>, tx.undo), <<tx.ent, tx.lm>>)
RedoExact == tx.on => Same(ApplyAll(<<tx.ent, tx.lm>>, tx.muts), <<ent, lm>>)
JournalOrdered == \A i \in 1..Len(journal) : /\ i > 1 => journal[i - 1].us < journal[i].begin
                                             /\ \A k \in 1..Len(journal[i].muts) - 1 : journal[i].muts[k].us < journal[i].muts[k + 1].us
JournalGrows == [][IsPrefix(journal, journal')]_svars
=============================================================================

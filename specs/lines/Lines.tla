-------------------------------- MODULE Lines --------------------------------
(* A byte stream arrives in pieces; the lines of the stream are handed over as soon as they are complete, what is left at the end
   once the stream ends.  A consumer which throws has its exception passed to whoever feeds, and gets nothing any more.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
NL == 10
VARIABLES given,   \* all bytes so far
          out,     \* the lines handed over
          state,   \* "open", "failed" (the consumer has thrown), "ended"
          failAt   \* the consumer throws when it gets its failAt-th line (0: never)
lvars == <<given, out, state, failAt>>

RECURSIVE Complete(_, _)
\* The complete lines of a byte string, `cur` being the beginning of the current one.
Complete(s, cur) == IF s = <<>> THEN <<>>
                    ELSE IF s[1] = NL THEN <<cur>> \o Complete(Tail(s), <<>>)
                    ELSE Complete(Tail(s), Append(cur, s[1]))
Rest(s) == LET nls == {i \in 1..Len(s) : s[i] = NL}
               last == IF nls = {} THEN 0 ELSE CHOOSE i \in nls : \A j \in nls : j <= i
           IN SubSeq(s, last + 1, Len(s))
Init(f) == given = <<>> /\ out = <<>> /\ state = "open" /\ failAt = f
\* The lines a consumer gets out of those: up to the one at which it throws.
Upto(ls) == IF failAt > Len(out) /\ failAt <= Len(out) + Len(ls) THEN SubSeq(ls, 1, failAt - Len(out)) ELSE ls
Feed(piece) ==
  /\ state \in {"open", "failed"}
  /\ IF state = "failed" THEN UNCHANGED lvars
     ELSE LET ls == Upto(SubSeq(Complete(given \o piece, <<>>), Len(out) + 1, Len(Complete(given \o piece, <<>>)))) IN
          /\ given' = given \o piece
          /\ out' = out \o ls
          /\ state' = IF failAt > 0 /\ Len(out') = failAt /\ ls # <<>> THEN "failed" ELSE "open"
          /\ UNCHANGED failAt
End == /\ state \in {"open", "failed"}
       /\ LET ls == IF state = "failed" \/ Rest(given) = <<>> THEN <<>> ELSE <<Rest(given)>> IN out' = out \o ls
       /\ state' = "ended" /\ UNCHANGED <<given, failAt>>
---------------------------------------------------------------------------
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o <<NL>> \o Joined(Tail(ls))
\* Whatever the pieces were, the lines and what is left make up the stream.
Faithful == state = "open" => Joined(out) \o Rest(given) = given
AllAtTheEnd == (state = "ended" /\ failAt = 0) => Joined(out) \in {given, given \o <<NL>>}
NoNewlineInside == \A i \in 1..Len(out) : \A k \in 1..Len(out[i]) : out[i][k] # NL
OutGrows == [][IsPrefix(out, out')]_lvars
=============================================================================

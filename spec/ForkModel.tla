------------------------------ MODULE ForkModel ------------------------------
(* Forks within forks, with the operations the check replays, and what must be   *)
(* so of every recorder: no span is reported by two processes.                   *)
EXTENDS Forks, TLC, Json
CONSTANTS Recs, Cap, MaxSpans, Depth, MaxForks
VARIABLES nid, nf,
          rep,      \* span -> processes (by depth and fork number) that reported it
          who       \* the processes of the stack
vars == <<fvars, nid, nf, rep, who>>
Init == FInit /\ nid = 0 /\ nf = 0 /\ rep = [i \in 1..MaxSpans |-> {}] /\ who = <<0>>
Same == UNCHANGED <<nid, nf, rep, who>>
Next == \/ \E r \in Recs : New(r, "m", Cap) /\ Same
        \/ \E r \in Recs : Destroy(r) /\ Same
        \/ \E r \in Recs : nid < MaxSpans /\ Record(r, nid + 1) /\ nid' = nid + 1 /\ UNCHANGED <<nf, rep, who>>
        \/ \E r \in Recs : /\ Running /\ r \in Live /\ Flush(r, P.live[r].ids, P.live[r].d)
                           /\ rep' = [i \in 1..MaxSpans |-> IF \E k \in DOMAIN P.live[r].ids : P.live[r].ids[k] = i THEN rep[i] \cup {who[Len(who)]} ELSE rep[i]]
                           /\ UNCHANGED <<nid, nf, who>>
        \/ nf < MaxForks /\ Len(procs) < Depth /\ Fork /\ nf' = nf + 1 /\ UNCHANGED <<nid, rep, who>>
        \/ (\E r \in Recs : Prepare(r) \/ Child(r) \/ Parent(r)) /\ Same
        \/ Split /\ who' = Append(who, nf) /\ UNCHANGED <<nid, nf, rep>>
        \/ (InChild \/ InParent) /\ Same
        \/ ChildEnds /\ who' = SubSeq(who, 1, Len(who) - 1) /\ UNCHANGED <<nid, nf, rep>>
Spec == Init /\ [][Next]_vars
Once == \A i \in 1..MaxSpans : Cardinality(rep[i]) <= 1
\* nothing of the parent's is still waiting in a child
CleanChild == \A k \in 2..Len(procs) : (procs[k].ph # "child" => \A r \in DOMAIN procs[k].live :
                 \A i \in DOMAIN procs[k].live[r].ids :
                   \A r2 \in DOMAIN procs[k - 1].live : \A j \in DOMAIN procs[k - 1].live[r2].ids :
                      procs[k].live[r].ids[i] # procs[k - 1].live[r2].ids[j])
===============================================================================

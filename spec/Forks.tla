-------------------------------- MODULE Forks --------------------------------
(* Recorders and forks (C23).  A stack of processes, each waiting for the one    *)
(* above it; every process has its own recorders, in whatever order they came.   *)
(* At a fork each is prepared once, then told once that it is in the parent or   *)
(* in the child; the child's recorders forget what the parent's will report.     *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES procs    \* innermost last: [live, told, ph]; live: recorder -> [kind, cap, ids, d]
fvars == <<procs>>
FInit == procs = <<[live |-> [x \in {} |-> 0], told |-> {}, ph |-> "run"]>>
P == procs[Len(procs)]
Live == DOMAIN P.live
Running == P.ph = "run"
Set(p) == procs' = [procs EXCEPT ![Len(procs)] = p]
New(r, kind, cap) == /\ Running /\ r \notin Live
                     /\ Set([P EXCEPT !.live = [x \in Live \cup {r} |-> IF x = r THEN [kind |-> kind, cap |-> cap, ids |-> <<>>, d |-> 0] ELSE P.live[x]]])
Destroy(r) == /\ Running /\ r \in Live /\ Set([P EXCEPT !.live = [x \in Live \ {r} |-> P.live[x]]])
Record(r, id) == /\ Running /\ r \in Live
                 /\ LET x == P.live[r] IN
                    Set([P EXCEPT !.live[r] = IF Len(x.ids) < x.cap THEN [x EXCEPT !.ids = Append(@, id)] ELSE [x EXCEPT !.d = @ + 1]])
\* a flush reports everything that waits in this process
Flush(r, ids, d) == /\ Running /\ r \in Live /\ ids = P.live[r].ids /\ d = P.live[r].d
                    /\ Set([P EXCEPT !.live[r].ids = <<>>, !.live[r].d = 0])
Fork == Running /\ Set([P EXCEPT !.ph = "prep", !.told = {}])
Told(r, ph) == P.ph = ph /\ r \in Live /\ r \notin P.told /\ Set([P EXCEPT !.told = @ \cup {r}])
Prepare(r) == Told(r, "prep")
\* the child runs first, the parent's view of the fork comes when the child has ended
Split == /\ P.ph = "prep" /\ P.told = Live
         /\ procs' = Append([procs EXCEPT ![Len(procs)].ph = "parent", ![Len(procs)].told = {}], [P EXCEPT !.ph = "child", !.told = {}])
Child(r) == Told(r, "child")
Parent(r) == Told(r, "parent")
InChild == /\ P.ph = "child" /\ P.told = Live
           /\ Set([P EXCEPT !.ph = "run", !.live = [x \in Live |-> [P.live[x] EXCEPT !.ids = <<>>, !.d = 0]]])
ChildEnds == Running /\ Len(procs) > 1 /\ procs' = SubSeq(procs, 1, Len(procs) - 1)
InParent == P.ph = "parent" /\ P.told = Live /\ Set([P EXCEPT !.ph = "run"])
===============================================================================

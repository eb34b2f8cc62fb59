------------------------------- MODULE Metrics -------------------------------
(* Drops recorded, taken by reports and returned by failed ones, concurrently.  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Recorders, Reporters, MaxDrops
VARIABLES pending, dropped, carried, delivered
vars == <<pending, dropped, carried, delivered>>
Init == pending = 0 /\ dropped = 0 /\ carried = [r \in Reporters |-> 0] /\ delivered = 0
Drop == \E n \in 1..2 : dropped + n <= MaxDrops /\ dropped' = dropped + n /\ pending' = pending + n /\ UNCHANGED <<carried, delivered>>
Take(r) == carried[r] = 0 /\ carried' = [carried EXCEPT ![r] = pending] /\ pending' = 0 /\ UNCHANGED <<dropped, delivered>>
Deliver(r) == carried[r] > 0 /\ delivered' = delivered + carried[r] /\ carried' = [carried EXCEPT ![r] = 0] /\ UNCHANGED <<pending, dropped>>
Fail(r) == carried[r] > 0 /\ pending' = pending + carried[r] /\ carried' = [carried EXCEPT ![r] = 0] /\ UNCHANGED <<delivered, dropped>>
Next == Drop \/ \E r \in Reporters : Take(r) \/ Deliver(r) \/ Fail(r)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Conserved == pending + delivered + Sum(carried, Reporters) = dropped
=============================================================================

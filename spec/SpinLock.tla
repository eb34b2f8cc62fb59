------------------------------- MODULE SpinLock -------------------------------
(* Test-and-set lock: exclusion, and under strong fairness of the successful    *)
(* test-and-set every thread that keeps trying gets in; under weak fairness     *)
(* only, the system as a whole progresses (C04).                                *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Rounds
VARIABLES locked, pc, done, data, seen
vars == <<locked, pc, done, data, seen>>
Init == locked = FALSE /\ pc = [t \in Threads |-> "out"] /\ done = [t \in Threads |-> 0] /\ data = 0 /\ seen = [t \in Threads |-> 0]
Tas(t) == /\ pc[t] = "out" /\ done[t] < Rounds
          /\ IF locked THEN UNCHANGED <<locked, pc, seen>>
             ELSE locked' = TRUE /\ pc' = [pc EXCEPT ![t] = "in"] /\ seen' = [seen EXCEPT ![t] = data]
          /\ UNCHANGED <<done, data>>
Work(t) == /\ pc[t] = "in" /\ data' = seen[t] + 1 /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<locked, done, seen>>
Clear(t) == /\ pc[t] = "leave" /\ locked' = FALSE /\ pc' = [pc EXCEPT ![t] = "out"] /\ done' = [done EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<data, seen>>
Next == \E t \in Threads : Tas(t) \/ Work(t) \/ Clear(t)
Spec == Init /\ [][Next]_vars
Enter(t) == Tas(t) /\ ~locked
Fair == Spec /\ \A t \in Threads : SF_vars(Enter(t)) /\ WF_vars(Work(t)) /\ WF_vars(Clear(t))
Exclusion == Cardinality({t \in Threads : pc[t] # "out"}) <= 1
Sum(f) == LET RECURSIVE F(_) F(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + F(S \ {x}) IN F(Threads)
Published == (\A t \in Threads : pc[t] = "out") => data = Sum(done)
AllFinish == <>(\A t \in Threads : done[t] = Rounds)
=============================================================================

------------------------------- MODULE IdsTrace -------------------------------
(* Identifiers generated by threads under explored schedules (C29): how many of  *)
(* each thread's had been generated before by it or another thread.             *)
EXTENDS Naturals, Sequences, FiniteSets, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1
Step(e) == e.e = "ids" /\ \A i \in 1..Len(e.dup) : e.dup[i] = 0
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
================================================================================

---------------------------- MODULE GeneratorTrace ----------------------------
(* Identifiers recorded in real threads and processes (C29): none ever repeats.  *)
EXTENDS Naturals, Sequences, FiniteSets, TraceKit
VARIABLES seen, procs, tid, l
TInit == tid \in 1..NTraces /\ l = 1 /\ seen = {} /\ procs = {"p"}
Step(e) ==
  \/ /\ e.e = "gen" /\ e.p \in procs
     /\ LET new == TLCEval(Range(e.ids)) IN
        /\ Cardinality(new) = Len(e.ids)
        /\ new \cap seen = {}
        /\ seen' = seen \cup new
     /\ UNCHANGED procs
  \/ /\ e.e = "fork" /\ e.p \in procs /\ e.c \notin procs
     /\ procs' = procs \cup {e.c} /\ UNCHANGED seen
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<seen, procs, tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
================================================================================

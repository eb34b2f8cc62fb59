------------------------------ MODULE LockTrace ------------------------------
(* The spin lock (C04): between acq and rel nobody else is inside, and the      *)
(* number of completed rounds read inside is exact (publication).               *)
EXTENDS TraceKit
VARIABLES holder, want, rounds, tid, l
vars == <<holder, want, rounds, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ holder = -1 /\ want = {} /\ rounds = 0
Ev == Traces[tid][l]
Step(e) ==
  \/ e.e = "c" /\ want' = want \cup {e.t} /\ UNCHANGED <<holder, rounds>>
  \/ e.e = "acq" /\ holder = -1 /\ e.t \in want /\ e.v = rounds /\ holder' = e.t /\ want' = want \ {e.t} /\ UNCHANGED rounds
  \/ e.e = "rel" /\ holder = e.t /\ holder' = -1 /\ rounds' = rounds + 1 /\ UNCHANGED want
  \/ e.e = "u" /\ holder # e.t /\ UNCHANGED <<holder, want, rounds>>
  \/ e.e = "end" /\ holder = -1 /\ want = {} /\ UNCHANGED <<holder, want, rounds>>
TNext == l <= Len(Traces[tid]) /\ tid' = tid /\ l' = l + 1 /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
=============================================================================

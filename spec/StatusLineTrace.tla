--------------------------- MODULE StatusLineTrace ---------------------------
EXTENDS StatusLine, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1 /\ SLInit
Step(e) == /\ \/ e.e = "parse" /\ Parse(e.s, e.thrown)
              \/ e.e = "reset" /\ Reset /\ e.thrown = 0
           /\ e.done = (IF done' THEN 1 ELSE 0)
           /\ done' => e.code = code' /\ e.reason = reason'
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<slvars, tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

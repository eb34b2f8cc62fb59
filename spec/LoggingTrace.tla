----------------------------- MODULE LoggingTrace ------------------------------
EXTENDS Logging, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1 /\ level = Fresh
Same == UNCHANGED level
Step(e) ==
  \/ e.e = "new" /\ e.level = Fresh /\ level' = Fresh
  \/ e.e = "level" /\ e.is = e.n /\ level' = e.n
  \/ /\ e.e = "log" /\ Same
     /\ IF e.how = "odd" THEN e.got = <<>>      \* a message that cannot be made is not logged
        ELSE e.got = Out(e.n, Cat(e.l))
  \/ e.e = "resp" /\ Same /\ Response(e.v, e.errors, e.warnings, e.infos, e.got)
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<level, tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

------------------------------ MODULE AutoTrace ------------------------------
EXTENDS AutoRecorder, TraceKit
VARIABLES tid, l
tvars == <<avars, tid, l>>
H == Traces[tid][1]
TInit == tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new" /\ AInit(Traces[tid][1].max, Traces[tid][1].now)
Ev == Traces[tid][l]
\* the reporting thread is the one that is no driver's thread
W(t) == t = H.writer
Step(e) ==
  \/ /\ e.e = "rc" /\ RecordCall(e.t, e.id, e.now)
     \* a new maximum is noticed within a period
     /\ (H.precise = 1 /\ e.now > Max2(optat, last) + H.period /\ ~exit /\ fl.st = "none") => snap = opt
  \/ e.e = "rr" /\ RecordReturn(e.t)
  \/ e.e = "fc" /\ FlushCall(e.t, e.now, e.by)
  \/ e.e = "fr" /\ FlushReturn(e.t, e.r, e.now, H.precise = 1)
  \/ e.e = "send" /\ e.bad = 0 /\ SendCall(e.ids, e.d, e.now, H.period, H.precise = 1)
  \/ e.e = "sret" /\ SendReturn(e.a, e.now)
  \/ e.e = "obs" /\ e.k = "sent" /\ TellSent(e.n)
  \/ e.e = "obs" /\ e.k = "dropped" /\ In(e.t, "rec") /\ TellDrop(e.t, e.n)
  \/ e.e = "obs" /\ e.k = "dropped" /\ ~In(e.t, "rec") /\ (TellFailed(e.n) \/ TellCounted(e.n))
  \/ e.e = "obs" /\ e.k = "flush" /\ dead # -2 /\ UNCHANGED avars
  \/ e.e = "max" /\ SetMax(e.m, e.now)
  \* a while later: nothing that could be sent is still waiting
  \/ e.e = "idle" /\ (pend = <<>> \/ exit) /\ fl.st \in {"none", "lost"} /\ UNCHANGED avars
  \/ e.e = "running" /\ e.r = (IF exit THEN 0 ELSE 1) /\ UNCHANGED avars
  \/ e.e = "dc" /\ DtorCall(e.now)
  \/ e.e = "dr" /\ DtorReturn(e.now, H.precise = 1)
  \/ e.e = "end" /\ UNCHANGED avars
Silent == /\ Ev.e \notin {"fc", "end"} /\ Hidden
TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

----------------------------- MODULE ManualTrace -----------------------------
EXTENDS ManualRecorder, TraceKit
VARIABLES tid, l, ns
tvars == <<mvars, tid, l, ns>>
TInit == tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new" /\ MInit(Traces[tid][1].cap) /\ ns = [q \in {} |-> 0]
Ev == Traces[tid][l]
\* what the report carries besides: intact spans, the tracer's identity
Step(e) ==
  \/ /\ \/ e.e = "rc" /\ RecordCall(e.t, e.id)
        \/ e.e = "full" /\ FullCall(e.t)
        \/ e.e = "fullr" /\ FullReturn(e.t)
        \/ e.e = "rr" /\ RecordReturn(e.t)
        \/ e.e = "fc" /\ FlushCall(e.t)
        \/ e.e = "sendr" /\ SendReturn(e.t)
        \/ e.e = "fr" /\ FlushReturn(e.t, e.r)
        \/ e.e = "ac" /\ AnswerCall(e.t, e.q, e.ok)
        \/ e.e = "ar" /\ In(e.t, "answer") /\ AnswerReturn(e.t, ns[Top(e.t).q])
        \/ e.e = "obs" /\ e.k = "dropped" /\ TellDrop(e.t, e.n)
        \/ e.e = "obs" /\ In(e.t, "answer") /\ TellAnswer(e.t, e.k, e.n, ns[Top(e.t).q])
        \/ e.e = "obs" /\ e.k = "flush" /\ TellFlush(e.t)
        \/ e.e = "fork" /\ Forked
        \/ e.e = "end" /\ (\A t \in DOMAIN stack : stack[t] = <<>>) /\ UNCHANGED mvars
     /\ UNCHANGED ns
  \/ e.e = "send" /\ e.bad = 0 /\ SendCall(e.t, e.q, e.ids, e.d) /\ ns' = Put(ns, e.q, Len(e.ids))
Silent == /\ Ev.e # "fc" /\ (\E t \in DOMAIN stack : Hidden(t)) /\ UNCHANGED ns
TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
TInv == Len(buf) <= cap /\ added - freed <= cap /\ pend >= 0
===============================================================================

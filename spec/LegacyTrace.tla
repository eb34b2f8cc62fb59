----------------------------- MODULE LegacyTrace -----------------------------
(* One record per call: what the transport was given and answered, what the      *)
(* observer was told, and whether the report in flight stayed as it was sent.    *)
EXTENDS LegacyManual, TraceKit
VARIABLES s, tid, l
vars == <<s, tid, l>>
TInit == tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new" /\ s = New(Traces[tid][1].max)
A(e, i) == IF i <= Len(e.ans) THEN e.ans[i] ELSE "ok"
Matches(t, e) == /\ e.bad = 0
                 /\ Len(e.sends) = Len(t.sends)
                 /\ \A i \in DOMAIN t.sends : e.sends[i].ids = t.sends[i].sp /\ e.sends[i].d = t.sends[i].d
                 /\ e.tsent = t.tsent /\ e.tdrop = t.tdrop
                 /\ e.tflush >= Len(t.sends)
Step(e) ==
  \/ e.e = "rec" /\ s' = Record(Fresh(s), e.id, A(e, 1), A(e, 2)) /\ Matches(s', e)
  \/ e.e = "flush" /\ s' = Flush(Fresh(s), A(e, 1)) /\ Matches(s', e) /\ e.r = FlushResult(s, A(e, 1))
  \/ e.e = "answer" /\ s.fl.on /\ e.same = 1 /\ s' = Answered(Fresh(s), e.a) /\ Matches(s', e)
  \/ e.e = "max" /\ s' = [s EXCEPT !.max = e.m]
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

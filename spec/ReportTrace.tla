----------------------------- MODULE ReportTrace -----------------------------
(* Reports (C12), validated on recorded operations.                              *)
EXTENDS FragmentStreams, TraceKit
VARIABLES rq, tid, l
R == INSTANCE Report
tvars == <<c, st, lent, rq, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ SInit /\ rq = <<>>
\* the length of the metrics message is whatever the first count says it is
NewReport(e) ==
  LET ml == e.nb - e.n IN
  /\ (e.d > 0) = (ml > 0)
  /\ rq' = Ext(rq, e.q, R!New(e.p, e.n, e.d, ml))
  /\ R!Counts(rq'[e.q], e)
  /\ UNCHANGED svars
AddSpan(e) ==
  /\ st[e.s] = "closed"
  /\ st' = [st EXCEPT ![e.s] = "gone"] /\ c' = [c EXCEPT ![e.s] = <<>>] /\ UNCHANGED lent
  /\ rq' = [rq EXCEPT ![e.q] = R!Add(@, c[e.s])]
  /\ R!Counts(rq'[e.q], e)
Look(e) == R!Counts(rq[e.q], e) /\ R!Iterated(rq[e.q], e) /\ e.same = 1 /\ UNCHANGED <<c, st, lent, rq>>
Step(e) ==
  \/ e.e = "QN" /\ NewReport(e)
  \/ e.e = "QA" /\ AddSpan(e)
  \/ e.e \in {"QR", "QC"} /\ Look(e)
  \/ e.e = "QD" /\ e.q \in DOMAIN rq /\ UNCHANGED <<c, st, lent, rq>>
  \/ /\ \/ e.e = "C" /\ NewChain(e.s)
        \/ e.e = "N" /\ e.ok = 1 /\ NextBuffer(e.s, e.p, e.n, e.bc)
        \/ e.e = "B" /\ BackUp(e.s, e.n, e.bc)
        \/ e.e = "X" /\ Close(e.s, e.bc)
        \/ e.e = "K" /\ Consume(e.ss, e.n, e.r)
        \/ e.e = "P" /\ AppendTo(e.s, e.o)
        \/ e.e = "R" /\ Read(e.s, e.k, e.nf, e.v, e.r, e.em, Norm(e.f))
     /\ UNCHANGED rq
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

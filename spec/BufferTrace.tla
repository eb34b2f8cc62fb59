----------------------------- MODULE BufferTrace -----------------------------
EXTENDS SpanBuffer, TraceKit
VARIABLES tid, l
tvars == <<cap, q, prod, cons, pend, owner, tid, l>>

TInit == tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new" /\ Traces[tid][1].max = Traces[tid][1].cap
         /\ BInit(Traces[tid][1].cap)

Ev == Traces[tid][l]
\* when all threads have been joined nothing is out of date any more
Weak == Traces[tid][1].weak = 1 /\ \E k \in l..Len(Traces[tid]) : Traces[tid][k].e = "quiet"
Step(e) ==
  \/ e.e = "ac" /\ AddCall(e.t, e.id)
  \/ e.e = "ar" /\ e.r = 1 /\ AddOk(e.t, e.own)
  \/ e.e = "ar" /\ e.r = 0 /\ AddRefused(e.t, e.own, Weak)
  \/ e.e = "cc" /\ ConsCall(e.t, e.op, e.n)
  \/ e.e = "cr" /\ ConsRet(0, e.ids, e.v)
  \/ e.e = "d" /\ Destroyed(e.t, e.id)
  \/ e.e = "quiet" /\ (\A t \in DOMAIN pend : pend[t] = None) /\ UNCHANGED bvars
  \/ e.e = "end" /\ AllGone /\ UNCHANGED bvars

\* hidden steps are only tried when a return or a destruction is next: delaying
\* them further changes nothing
Silent == /\ Ev.e \in {"ar", "cr", "d"}
          /\ \E t \in DOMAIN pend : AddLin(t) \/ SizeLin(t, Weak) \/ RemoveLin(t) \/ CountLin(t) \/ ReadLin(t, Weak)

TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
TInv == Bounded /\ CountsAgree /\ PerProducerOrder /\ InBufferOnce
==============================================================================

----------------------------- MODULE MetricsTrace -----------------------------
(* Drop accounting (C11): pending is what has been recorded or given back and   *)
(* not taken.  Each call has one hidden step between its start and its return;  *)
(* the observer is told exactly once per call, within it.                       *)
EXTENDS TraceKit
VARIABLES pending, dropped, out, pend, tid, l
vars == <<pending, dropped, out, pend, tid, l>>
None == [op |-> "none"]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
P(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
TInit == tid \in 1..NTraces /\ l = 1 /\ pending = 0 /\ dropped = 0 /\ out = 0 /\ pend = <<>>
Ev == Traces[tid][l]
Call(e) == /\ P(e.t) = None
           /\ pend' = Ext(pend, e.t, [op |-> e.op, n |-> e.n, lin |-> e.op \in {"sent", "flush"},
                                      told |-> e.op \notin {"drop", "sent", "flush"}, v |-> 0])
           /\ UNCHANGED <<pending, dropped, out>>
Lin(t) ==
  /\ P(t) # None /\ ~P(t).lin
  /\ CASE P(t).op = "drop" -> pending' = pending + P(t).n /\ dropped' = dropped + P(t).n /\ out' = out
                              /\ pend' = [pend EXCEPT ![t].lin = TRUE]
       [] P(t).op = "take" -> pending' = 0 /\ out' = out + pending /\ dropped' = dropped
                              /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = pending]
       [] P(t).op = "give" -> pending' = pending + P(t).n /\ out' = out - P(t).n /\ dropped' = dropped
                              /\ pend' = [pend EXCEPT ![t].lin = TRUE]
       [] P(t).op = "query" -> pend' = [pend EXCEPT ![t].lin = TRUE, ![t].v = pending] /\ UNCHANGED <<pending, dropped, out>>
Obs(e) == /\ P(e.t) # None /\ ~P(e.t).told
          /\ e.k = (CASE P(e.t).op = "drop" -> "dropped" [] P(e.t).op = "sent" -> "sent" [] OTHER -> "flush")
          /\ e.n = P(e.t).n
          /\ pend' = [pend EXCEPT ![e.t].told = TRUE]
          /\ UNCHANGED <<pending, dropped, out>>
Ret(e) == /\ P(e.t) # None /\ P(e.t).lin /\ P(e.t).told
          /\ (P(e.t).op \in {"take", "query"} => e.v = P(e.t).v)
          /\ pend' = Ext(pend, e.t, None)
          /\ UNCHANGED <<pending, dropped, out>>
Step(e) == \/ e.e = "c" /\ Call(e)
           \/ e.e = "obs" /\ Obs(e)
           \/ e.e = "r" /\ Ret(e)
           \/ e.e = "end" /\ pending = 0 /\ UNCHANGED <<pending, dropped, out, pend>>
Silent == Ev.e = "r" /\ \E t \in DOMAIN pend : Lin(t)
TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
Conserved == pending + out = dropped
=============================================================================

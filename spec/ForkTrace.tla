------------------------------ MODULE ForkTrace ------------------------------
EXTENDS Forks, TraceKit
VARIABLES tid, l
tvars == <<fvars, tid, l>>
TInit == FInit /\ tid \in 1..NTraces /\ l = 1
Step(e) ==
  \/ e.e = "new" /\ New(e.r, e.k, e.cap)
  \/ e.e = "del" /\ Destroy(e.r)
  \/ e.e = "rec" /\ Record(e.r, e.id)
  \/ e.e = "flush" /\ Flush(e.r, e.ids, e.d)
  \/ e.e = "fork" /\ Fork
  \/ e.e = "prep" /\ Prepare(e.r)
  \/ e.e = "split" /\ Split
  \/ e.e = "ch" /\ Child(e.r)
  \/ e.e = "inchild" /\ InChild
  \/ e.e = "cend" /\ ChildEnds
  \/ e.e = "pa" /\ Parent(e.r)
  \/ e.e = "inparent" /\ InParent
  \/ e.e = "live" /\ Running /\ {e.rs[i] : i \in DOMAIN e.rs} = Live /\ Len(e.rs) = Cardinality(Live) /\ UNCHANGED procs
TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid /\ Step(Traces[tid][l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

--------------------------- MODULE ResolutionTrace ---------------------------
EXTENDS Resolution, TraceKit
CONSTANTS JudgeRotation, JudgeResolution
VARIABLES tid, l
C(e) == [min |-> e.min, max |-> e.max, retry |-> e.retry, nh |-> e.hosts, eps |-> e.eps]
TInit == tid \in 1..NTraces /\ l = 2 /\ RInit(C(Traces[tid][1]))
Key(e) == <<e.h, e.f>>
Same == UNCHANGED rvars
Step(e) ==
  \/ e.e = "start" /\ (\A k \in K(cfg) : st[k] = "new") /\ Same
  \/ e.e = "started" /\ (JudgeResolution => ready # 1 /\ Settled) /\ Same
  \/ e.e = "answered" /\ (JudgeResolution => ready # 1) /\ Same
  \/ e.e = "rest" /\ e.bad = 0 /\ (JudgeResolution => ready # 1 /\ Settled) /\ Same
  \/ /\ e.e = "resolve"
     /\ IF JudgeResolution THEN Ask(Key(e), now) ELSE st' = Upd(st, Key(e), "asked") /\ UNCHANGED <<cfg, lo, hi, addrs, ready, ei, ai, now>>
  \/ e.e = "answer" /\ e.kind # 0 /\ Failed(Key(e))
  \/ e.e = "answer" /\ e.kind = 0 /\ Resolved(Key(e), e.l)
  \/ e.e = "ready" /\ (IF JudgeResolution THEN Announce ELSE Same)
  \/ e.e = "now" /\ (IF JudgeResolution THEN Pass(e.t) ELSE now' = e.t /\ UNCHANGED <<cfg, st, lo, hi, addrs, ready, ei, ai>>)
  \* whatever is chosen belongs together; in turn, if the turn is judged
  \/ /\ e.e = "req"
     /\ \E n \in 1..NE : /\ cfg.eps[n] = <<e.h, e.port>> /\ e.ah = e.h /\ e.f = Family(e.h)
                         /\ \E p \in 1..Len(List(e.h)) : /\ List(e.h)[p] = e.k
                              /\ IF JudgeRotation THEN Choose(n, p) ELSE Same
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<rvars, tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

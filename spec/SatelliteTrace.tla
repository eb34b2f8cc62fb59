---------------------------- MODULE SatelliteTrace ----------------------------
(* Histories of the real streamer. *)
EXTENDS SatelliteEvents
VARIABLES tid, l
tvars == <<svars, tid, l>>
TInit == tid \in 1..NTraces /\ l = 2 /\ SInit(C(Traces[tid][1]))
RestEv(e) == LET s == Idling(Takes(e)) IN
  /\ e.bad = 0
  /\ (JudgeTimes => AtRest(e, s))
  /\ (JudgeTimes /\ ~gone => (AllDown => e.act = 0) /\ (~MayBeDown => e.act = 1))
  /\ e.n = Len(q)
  /\ (JudgeCounts => e.sent = sent /\ e.dropped = occurred)
  /\ sl' = s /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
Step(e) ==
  \/ NetEvent(e, {})
  \/ e.e = "rest" /\ RestEv(e)
  \/ e.e = "now" /\ Pass(e.t, Idling(Takes(e)))
  \* a span is accepted unless the buffer is full, and counted if refused
  \/ /\ e.e = "add"
     /\ q' = IF e.ok = 1 THEN Append(q, e.id) ELSE q
     /\ e.ok = 1 \/ Len(q) = cfg.cap
     /\ occurred' = occurred + 1 - e.ok
     /\ UNCHANGED <<cfg, sl, ep, known, shutting, gone, now, dead, delivered, sent>>
  \/ e.e = "lost" /\ occurred' = occurred + e.n0 /\ UNCHANGED <<cfg, sl, q, ep, known, shutting, gone, now, dead, delivered, sent>>
  \/ e.e = "flush" /\ Same
  \* a flush leaves spans behind only if no connection takes them
  \/ e.e = "flushed" /\ (JudgeTimes => q = <<>> \/ \A i \in Slots : ~Ready(i)) /\ Same
  \/ e.e = "shut" /\ Shutdown
  \/ e.e = "del" /\ Destroy
  \* no socket is left, and every drop has been told to a satellite or is still to be told
  \/ e.e = "gone" /\ (\A i \in Slots : ~Is(i, "open")) /\ dead = {} /\ (JudgeCounts => delivered + e.left = occurred) /\ Same
TNext == /\ l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

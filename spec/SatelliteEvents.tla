---------------------------- MODULE SatelliteEvents ----------------------------
(* What is seen of the pool from outside: names, sockets, bytes.  The bytes of each *)
(* connection have been parsed as one chunked request: fin lists what a write       *)
(* completed (-1 the head, -2 the terminator, else a span), part what the item in   *)
(* progress may be.                                                                 *)
EXTENDS Satellite, TraceKit
CONSTANTS JudgeTimes,  \* connections and their times (C18)
          JudgeCounts  \* what the metrics are told (C10)
C(e) == [nc |-> e.nc, wt |-> e.wt, retry |-> e.retry, min |-> e.min, max |-> e.max, grace |-> e.grace, eps |-> e.eps, cap |-> e.cap]
Same == UNCHANGED svars
Of(id) == {i \in Slots : Is(i, "open") /\ sl[i].id = id}
WriteEv(e, late) ==
  \E i \in Of(e.id) :
    LET n == Len(e.fin)
        \* whether the request is being finished
        f == \/ sl[i].fin \/ (\E j \in 1..n : e.fin[j] = Z) \/ (\E j \in 1..Len(e.part) : e.part[j] = Z /\ ~\E k \in 1..Len(e.part) : e.part[k] > 0)
             \/ (e.full = 0 /\ e.err = 0 /\ n = Len(Items(i, FALSE)))
        due == Items(i, f)
        rest == SubSeq(due, n + 1, Len(due))
    IN /\ MayWrite(i, e.wr = 1)
       /\ e.counted >= 0
       /\ n <= Len(due) /\ e.fin = SubSeq(due, 1, n)
       /\ e.part # <<>> => rest # <<>> /\ \E j \in 1..Len(e.part) : e.part[j] = rest[1]
       /\ Write(i, f, n, e.part # <<>>, e.full = 1 /\ e.err = 0, e.err = 1, e.counted, late)
       \* no span is begun and left without being in progress
       /\ (JudgeCounts => delivered' <= occurred)
Takes(e) == {e.k[j][1] : j \in {j \in 1..Len(e.k) : e.k[j][2] = 1}}
\* s: the slots at rest
AtRest(e, s) == /\ (\A i \in Slots : gone \/ Quiet(s[i])) /\ dead = {}
                \* one socket per open connection, and none besides
                /\ (~gone => /\ {e.k[j][1] : j \in 1..Len(e.k)} = {sl[i].id : i \in {i \in Slots : Is(i, "open")}}
                             \* none could go on writing or reading
                             /\ \A j \in 1..Len(e.k) : \A i \in Of(e.k[j][1]) : e.k[j][3] = 0 /\ (e.k[j][2] = 1 => s[i].wdl = -1))
NetEvent(e, late) ==
  \/ e.e = "go" /\ Resolved(e.h)
  \/ e.e = "went" /\ (JudgeTimes => shutting \/ \A i \in Slots : ~Is(i, "due") \/ sl[i].at > now) /\ Same
  \/ /\ e.e = "conn" /\ e.ok = 1 /\ e.nb = 1 /\ Connected(e.id)
     /\ (JudgeTimes => cfg.eps[NextEp] = <<e.h, e.port>>)
  \/ /\ e.e = "conn" /\ e.ok = 0
     /\ \E x \in {ep, NextEp} : /\ Refused(e.id, x)
                                /\ (JudgeTimes => e.h = -1 \/ (x = NextEp /\ cfg.eps[x] = <<e.h, e.port>>))
  \/ e.e = "close" /\ DeadClosed(e.id)
  \/ e.e = "close" /\ \E i \in Of(e.id) : \E why \in {"now", "retry"} : Close(i, why)
  \/ e.e = "close" /\ \E i \in Of(e.id) : CloseGone(i)
  \/ e.e = "write" /\ WriteEv(e, late)
  \/ e.e = "read" /\ e.r > 0 /\ \E i \in Of(e.id) :
        \/ e.cls = 0 /\ Is(i, "open") /\ sl[i].why = {} /\ Same
        \/ e.cls = 1 /\ Reply(i, {"retry"})
        \/ e.cls = 2 /\ (Reply(i, {"retry"}) \/ Same)
  \/ e.e = "read" /\ e.r = -11 /\ Of(e.id) # {} /\ Same
  \/ e.e = "read" /\ e.r \notin {-11} /\ e.r <= 0 /\ \E i \in Of(e.id) : Reply(i, {"now"})
===============================================================================

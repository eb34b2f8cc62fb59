---------------------------- MODULE RecorderTrace ----------------------------
(* Histories of the real streaming recorder (C17, C23) under the scheduler: its  *)
(* connections are the Satellite specification; here are the threads that        *)
(* record, flush, shut down, fork and destroy.  Time passes only when every      *)
(* thread waits, so that what must come at once or by a time can be judged.      *)
EXTENDS SatelliteEvents
VARIABLES rc,       \* [poll, report, mark]
          calls,    \* thread -> what it is in
          at,       \* span -> when it entered the buffer
          late,     \* spans that entered since the network thread was last seen
          slack,    \* spans taken by a write whose places may not be free yet
          em, dn,   \* since when the buffer is empty, all connections are down
          again,    \* a shutdown was asked for when one had begun
          asked, sdl, \* a shutdown was asked for, by when it must have begun
          dc,       \* when destroying (or forking) began, -1
          osent, odropped, oflush,
          tid, l
rvars == <<rc, calls, at, late, slack, em, dn, again, asked, sdl, dc, osent, odropped, oflush>>
tvars == <<svars, rvars, tid, l>>
T0 == [w |-> "-"]
Threads == 0..12
TInit == /\ tid \in 1..NTraces /\ l = 2
         /\ LET e == Traces[tid][1] IN
            /\ SInit(C(e)) /\ rc = [poll |-> e.poll, report |-> e.report, mark |-> e.cap \div 2]
         /\ calls = [t \in Threads |-> T0] /\ at = <<>> /\ late = {} /\ slack = 0 /\ em = 0 /\ dn = 0
         /\ again = FALSE /\ asked = FALSE /\ sdl = 0 /\ dc = -1 /\ osent = 0 /\ odropped = 0 /\ oflush = 0
Qs == {q[i] : i \in 1..Len(q)}
Full == Len(q) + slack >= cfg.cap
AReady == \E i \in Slots : Ready(i)
\* what changes with the buffer, whatever happens
\* a recording thread sees the buffer full at some instant of its call
Note(c) == [t \in Threads |-> IF c[t].w = "r" /\ Full THEN [c[t] EXCEPT !.full = TRUE] ELSE c[t]]
Buffer(c) == /\ em' = IF q' = <<>> /\ q # <<>> THEN now ELSE em
             /\ dn' = IF AllDown' /\ ~AllDown THEN now' ELSE dn
             /\ calls' = Note(c)
S1 == <<cfg, sl, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
\* ---- a span enters the buffer, unseen, between the call and its return
Land(t) == /\ calls[t].w = "r" /\ calls[t].st = "no" /\ Len(q) < cfg.cap
           /\ q' = Append(q, calls[t].id) /\ at' = at @@ (calls[t].id :> now) /\ late' = late \cup {calls[t].id}
           /\ UNCHANGED S1 /\ Buffer([calls EXCEPT ![t].st = "in"])
           /\ UNCHANGED <<rc, slack, again, asked, sdl, dc, osent, odropped, oflush>>
\* ---- the network thread sees that a shutdown was asked for; that it is to end
BeginShutdown == /\ asked /\ ~shutting /\ ~gone /\ Shutdown /\ Buffer(calls)
                 /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
\* what could be written has been
Told(c) == [t \in Threads |-> IF c[t].w = "s" /\ shutting /\ MayBeDown THEN [c[t] EXCEPT !.ok = TRUE] ELSE c[t]]
End == /\ dc >= 0 /\ ~gone /\ (q = <<>> \/ ~AReady) /\ Destroy /\ Buffer(Told(calls))
       /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
Hidden == (\E t \in Threads : Land(t)) \/ BeginShutdown \/ End

Call(t, r) == calls[t] = T0 /\ Same /\ Buffer([calls EXCEPT ![t] = r])
Back(t) == Same /\ Buffer([calls EXCEPT ![t] = T0])
Counted == osent = sent /\ odropped = occurred
\* ---- nothing that is due by t is passed over
Timely(t) ==
  /\ dc >= 0 => t <= dc + rc.poll
  /\ (asked /\ ~shutting /\ ~gone => t <= sdl)
  /\ \A x \in Threads :
       CASE calls[x].w = "f" -> /\ t <= calls[x].by
                                /\ (q = <<>> => t <= em + rc.poll)
                                /\ (calls[x].need \cap Qs # {} /\ AReady => t <= calls[x].a + rc.poll)
         [] calls[x].w = "s" -> t <= calls[x].by /\ (shutting /\ AllDown => t <= dn + rc.poll)
         [] calls[x].w = "r" -> FALSE
         [] OTHER -> TRUE
  /\ (q # <<>> /\ AReady => t <= at[q[1]] + rc.report)
  /\ (Len(q) > rc.mark /\ AReady => t <= at[q[rc.mark + 1]] + rc.poll)
Clear == late' = {} /\ slack' = 0
Step(e) ==
  \/ /\ NetEvent(e, late) /\ late' = {} /\ slack' = (IF e.e = "write" THEN Len(q) - Len(q') ELSE 0) /\ Buffer(calls)
     /\ UNCHANGED <<rc, at, again, asked, sdl, dc, osent, odropped, oflush>>
  \/ /\ e.e = "obs" /\ Same /\ Buffer(calls) /\ calls[e.t].w # "r"
     /\ osent' = osent + (IF e.k = "sent" THEN e.n ELSE 0)
     /\ odropped' = odropped + (IF e.k = "dropped" THEN e.n ELSE 0)
     /\ oflush' = IF e.k = "flush" THEN now ELSE oflush
     /\ late' = {} /\ UNCHANGED <<rc, at, slack, again, asked, sdl, dc>>
  \/ /\ e.e = "wait" /\ LET s == Idling(Takes(e)) IN
          AtRest(e, s) /\ sl' = s /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
     /\ Counted /\ ~gone /\ Clear /\ Buffer(calls)
     /\ UNCHANGED <<rc, at, again, asked, sdl, dc, osent, odropped, oflush>>
  \/ /\ e.e = "now" /\ Pass(e.t, sl) /\ Timely(e.t) /\ Buffer(calls)
     /\ (gone \/ e.t <= oflush + rc.report)
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \* ---- recording: accepted unless the buffer is full meanwhile
  \/ /\ e.e = "rc" /\ Call(e.t, [w |-> "r", id |-> e.id, st |-> "no", full |-> Full])
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \/ /\ e.e = "obs" /\ calls[e.t].w = "r" /\ calls[e.t].st = "no" /\ (calls[e.t].full \/ Full) /\ e.k = "dropped" /\ e.n = 1
     /\ occurred' = occurred + 1 /\ odropped' = odropped + 1
     /\ UNCHANGED <<cfg, sl, q, ep, known, shutting, gone, now, dead, delivered, sent>>
     /\ Buffer([calls EXCEPT ![e.t].st = "out"])
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, oflush>>
  \/ /\ e.e = "rr" /\ calls[e.t].w = "r" /\ calls[e.t].st # "no" /\ Back(e.t)
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \* ---- flushing
  \/ /\ e.e = "fc" /\ Call(e.t, [w |-> "f", a |-> now, by |-> e.by, need |-> Qs])
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \/ /\ e.e = "fr" /\ calls[e.t].w = "f" /\ Back(e.t)
     /\ IF e.r = 1 THEN calls[e.t].need \cap Qs = {}
        ELSE now >= calls[e.t].by /\ ~(q = <<>> /\ em + rc.poll < now)
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \* ---- shutting down
  \/ /\ e.e = "sc" /\ Call(e.t, [w |-> "s", by |-> e.by, ok |-> FALSE])
     /\ again' = (again \/ shutting) /\ asked' = TRUE /\ sdl' = IF asked THEN sdl ELSE now + rc.poll
     /\ UNCHANGED <<rc, at, late, slack, dc, osent, odropped, oflush>>
  \/ /\ e.e = "sr" /\ calls[e.t].w = "s" /\ Back(e.t)
     /\ IF e.r = 1 THEN calls[e.t].ok \/ (shutting /\ MayBeDown)
        ELSE now >= calls[e.t].by /\ ~(shutting /\ AllDown /\ dn + rc.poll < now)
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, dc, osent, odropped, oflush>>
  \* ---- destroying and forking
  \/ /\ e.e \in {"dc", "pc"} /\ dc = -1 /\ dc' = now /\ Same /\ Buffer(calls) /\ (e.e = "dc" => \A t \in Threads : calls[t] = T0)
     /\ UNCHANGED <<rc, at, late, slack, again, asked, sdl, osent, odropped, oflush>>
  \/ /\ e.e = "dr" /\ gone /\ (\A i \in Slots : ~Is(i, "open")) /\ dead = {} /\ e.open = 0 /\ e.live = 0 /\ Counted
     /\ Same /\ UNCHANGED rvars
  \* nothing of the network survives until after the fork; the recorder starts anew, with the spans that wait
  \/ /\ e.e = "pr" /\ gone /\ (\A i \in Slots : ~Is(i, "open")) /\ dead = {} /\ e.open = 0 /\ e.live = 0 /\ Counted
     /\ sl' = [i \in Slots |-> Idle] /\ ep' = 0 /\ known' = {} /\ shutting' = FALSE /\ gone' = FALSE
     /\ UNCHANGED <<cfg, q, now, dead, occurred, delivered, sent>>
     /\ at' = [x \in DOMAIN at |-> now] /\ em' = now /\ dn' = now /\ oflush' = now
     /\ again' = FALSE /\ asked' \in {asked /\ ~shutting, again} /\ sdl' = now + rc.poll /\ dc' = -1
     /\ calls' = [t \in Threads |-> IF calls[t].w = "f" THEN [calls[t] EXCEPT !.a = now] ELSE calls[t]]
     /\ UNCHANGED <<rc, late, slack, osent, odropped>>
  \* the child leaves them and the drop counts to its parent
  \/ /\ e.e = "child" /\ (\A t \in Threads : calls[t] = T0) /\ q' = <<>> /\ occurred' = delivered /\ odropped' = delivered
     /\ UNCHANGED <<cfg, sl, ep, known, shutting, gone, now, dead, delivered, sent>>
     /\ UNCHANGED <<rc, calls, at, late, slack, em, dn, again, asked, sdl, dc, osent, oflush>>
  \/ e.e = "forked" /\ Same /\ UNCHANGED rvars
TNext == /\ tid' = tid
         /\ \/ l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1
            \/ l <= Len(Traces[tid]) /\ Hidden /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

------------------------------- MODULE Satellite -------------------------------
(* The pool of satellite connections (C18) with what is written on them (C09,    *)
(* C10).  Connections are slots: alike, so that it never matters which is which. *)
(* Times are instants; a slot holds a socket, or waits until the instant `at`    *)
(* to try again, or is down for good.  A renewal shows only when the request is  *)
(* being finished: until then [lo, hi] is when it can have been decided, after   *)
(* that [glo, ghi] is when the time for the reply can run out.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,       \* [nc, wt, retry, min, max, grace, eps, cap]
          sl,        \* slots
          q,         \* spans waiting, not begun on any connection
          ep,        \* endpoint last used (0: none yet)
          known,     \* hosts whose addresses are known
          shutting, gone, now,
          dead,      \* sockets of attempts that failed, to be closed
          occurred, delivered,  \* drops so far; drop counts in request heads written out
          sent
svars == <<cfg, sl, q, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
Slots == 1..cfg.nc
H == -1
Z == -2
\* what: "idle" not started, "due", "open", "ending" shutting down without a socket, "down"
Idle == [what |-> "idle", id |-> 0, at |-> 0, wdl |-> -1, lo |-> 0, hi |-> 0, fin |-> FALSE, glo |-> 0, ghi |-> 0, head |-> FALSE, cur |-> 0, term |-> 0, why |-> {}]
SInit(c) == /\ cfg = c /\ sl = [i \in 1..c.nc |-> Idle] /\ q = <<>> /\ ep = 0 /\ known = {} /\ shutting = FALSE /\ gone = FALSE /\ now = 0
            /\ dead = {} /\ occurred = 0 /\ delivered = 0 /\ sent = 0
Set(i, r) == sl' = [sl EXCEPT ![i] = r]
Due(t) == [Idle EXCEPT !.what = "due", !.at = t]
Is(i, w) == sl[i].what = w
Ready(i) == Is(i, "open") /\ sl[i].wdl = -1 /\ ~sl[i].fin /\ sl[i].why = {}
NE == Len(cfg.eps)
RECURSIVE AfterEp(_)
AfterEp(i) == LET n == (i % NE) + 1 IN IF cfg.eps[n][1] \in known THEN n ELSE AfterEp(n)
NextEp == AfterEp(ep)

\* ---- a host's address becomes known: with the first, every connection starts
Resolved(h) == /\ known' = known \cup {h}
               /\ sl' = [i \in Slots |-> IF Is(i, "idle") THEN Due(now) ELSE sl[i]]
               /\ UNCHANGED <<cfg, q, ep, shutting, gone, now, dead, occurred, delivered, sent>>
\* ---- an attempt to connect, which must be due
Pick == CHOOSE i \in Slots : Is(i, "due") /\ sl[i].at = now
CanConnect == ~shutting /\ ~gone /\ \E i \in Slots : Is(i, "due") /\ sl[i].at = now
Connected(id) == /\ CanConnect
                 /\ Set(Pick, [Idle EXCEPT !.what = "open", !.id = id, !.wdl = now + cfg.wt, !.lo = now + cfg.min, !.hi = now + cfg.max])
                 /\ ep' = NextEp
                 /\ UNCHANGED <<cfg, q, known, shutting, gone, now, dead, occurred, delivered, sent>>
\* it failed: tried again after the retry period
Refused(id, e) == /\ CanConnect /\ Set(Pick, Due(now + cfg.retry))
                  /\ ep' = e /\ dead' = dead \cup ({id} \ {0})
                  /\ UNCHANGED <<cfg, q, known, shutting, gone, now, occurred, delivered, sent>>
DeadClosed(id) == id \in dead /\ dead' = dead \ {id} /\ UNCHANGED <<cfg, sl, q, ep, known, shutting, gone, now, occurred, delivered, sent>>

\* ---- what is due on a connection, in order, while its request goes on or is finished
Items(i, f) == (IF sl[i].head THEN <<>> ELSE <<H>>)
               \o (IF sl[i].cur > 0 THEN <<sl[i].cur>> ELSE <<>>)
               \o (IF f THEN (IF sl[i].term = 1 THEN <<>> ELSE <<Z>>) ELSE q)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
\* a connection that takes data finishes its request as soon as that is decided
Since(i) == IF sl[i].wdl = -1 THEN Max(sl[i].lo, now) ELSE sl[i].lo
MayFinish(i) == sl[i].fin \/ (~shutting /\ Since(i) <= Min(now, sl[i].hi)) \/ gone
Finished(r, from, to) == IF r.fin THEN r ELSE [r EXCEPT !.fin = TRUE, !.glo = from + cfg.grace, !.ghi = to + cfg.grace]
MayWrite(i, writable) == Is(i, "open") /\ sl[i].why = {} /\ (sl[i].wdl = -1 \/ writable)
\* `late`: spans that came too late to be seen
\* items `fin` are written out, and part of the next one if `part`; then the
\* connection takes no more for now (~all), or is broken
Write(i, f, n, part, all, broken, count, late) ==
  LET due == Items(i, f)
      fin == SubSeq(due, 1, n)
      done == {fin[j] : j \in 1..n}
      rest == SubSeq(due, n + 1, Len(due))
      spans == {x \in done : x > 0}
      cur == IF part /\ rest[1] > 0 THEN rest[1] ELSE IF sl[i].cur \in done THEN 0 ELSE sl[i].cur
      r == IF f THEN Finished(sl[i], Since(i), Min(now, sl[i].hi)) ELSE [sl[i] EXCEPT !.lo = Since(i)]
  IN /\ (f => MayFinish(i)) /\ (~f => ~sl[i].fin)
     /\ n <= Len(due) /\ (part => rest # <<>>) /\ (~broken => IF all THEN {rest[j] : j \in 1..Len(rest)} \subseteq late ELSE rest # <<>>)
     /\ q' = SelectSeq(q, LAMBDA x : x \notin done /\ x # cur)
     \* spans are written only by a connection that goes on
     /\ Set(i, [r EXCEPT !.head = @ \/ H \in done, !.cur = cur, !.term = IF Z \in done THEN 1 ELSE @,
                         !.lo = IF ~f /\ (\E x \in done : x > 0 /\ x # sl[i].cur) THEN Max(@, now) ELSE @,
                         !.wdl = IF broken THEN @ ELSE IF all THEN -1 ELSE now + cfg.wt,
                         !.why = IF broken THEN {"retry"} ELSE {}])
     /\ delivered' = delivered + (IF H \in done THEN count ELSE 0)
     /\ sent' = sent + Cardinality(spans)
     /\ UNCHANGED <<cfg, ep, known, shutting, gone, now, dead, occurred>>

\* its socket takes data again and there is nothing to write
Idling(ids) == [i \in Slots |-> IF Is(i, "open") /\ sl[i].why = {} /\ sl[i].id \in ids /\ Items(i, sl[i].fin) = <<>> THEN [sl[i] EXCEPT !.wdl = -1] ELSE sl[i]]

\* ---- the peer: its reply turned out malformed; it is at its end, or there is an error
Reply(i, why) == /\ Is(i, "open") /\ sl[i].why = {} /\ Set(i, [sl[i] EXCEPT !.why = why])
                 /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
\* ---- renewal, at some instant of its window
Renew(i) == /\ Is(i, "open") /\ ~sl[i].fin /\ sl[i].why = {} /\ now >= sl[i].lo /\ now <= sl[i].hi /\ ~shutting
            /\ Set(i, Finished(sl[i], now, now))
            /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, occurred, delivered, sent>>
\* ---- abandoned: for a reason
OutOfTime(i) == IF sl[i].fin THEN sl[i].glo <= now /\ now <= sl[i].ghi
                ELSE ~shutting /\ sl[i].wdl # -1 /\ sl[i].lo <= now - cfg.grace /\ now - cfg.grace <= sl[i].hi
Reasons(i) == sl[i].why \cup (IF sl[i].wdl = now \/ OutOfTime(i) THEN {"now"} ELSE {})
Lose(i) == occurred' = occurred + (IF sl[i].cur > 0 THEN 1 ELSE 0)
Close(i, why) == /\ Is(i, "open") /\ why \in Reasons(i) /\ ~gone
                 /\ Set(i, IF shutting THEN [Idle EXCEPT !.what = "ending", !.at = IF why = "retry" THEN now + cfg.retry ELSE now] ELSE Due(IF why = "retry" THEN now + cfg.retry ELSE now))
                 /\ Lose(i)
                 /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, delivered, sent>>
\* ---- shutting down
Shutdown == /\ ~gone /\ shutting' = TRUE
            /\ sl' = [i \in Slots |-> CASE Is(i, "open") -> IF sl[i].fin THEN [sl[i] EXCEPT !.ghi = now + cfg.grace] ELSE Finished(sl[i], Min(sl[i].lo, now), now)
                                        [] sl[i].what \in {"idle", "due"} -> [Idle EXCEPT !.what = "ending", !.at = now + cfg.grace]
                                        [] OTHER -> sl[i]]
            /\ UNCHANGED <<cfg, q, ep, known, gone, now, dead, occurred, delivered, sent>>
\* a connection without a socket is down at once, or when its time is up
AllDown == \A i \in Slots : Is(i, "down") \/ (Is(i, "ending") /\ sl[i].at <= now)
MayBeDown == \A i \in Slots : sl[i].what \in {"down", "ending"}
\* ---- destroyed: those that can finish their request at once do
Destroy == /\ ~gone /\ gone' = TRUE
           /\ sl' = [i \in Slots |-> IF Ready(i) THEN [sl[i] EXCEPT !.fin = TRUE] ELSE sl[i]]
           /\ UNCHANGED <<cfg, q, ep, known, shutting, now, dead, occurred, delivered, sent>>
CloseGone(i) == /\ gone /\ Is(i, "open") /\ (sl[i].fin /\ sl[i].wdl = -1 => sl[i].term = 1 \/ sl[i].why # {}) /\ Set(i, [Idle EXCEPT !.what = "down"]) /\ Lose(i)
                /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, now, dead, delivered, sent>>
\* ---- time passes, but nothing due is passed over
Pass(t, s) ==
  /\ t > now /\ now' = t /\ sl' = s
  /\ \A i \in Slots :
       gone \/ CASE s[i].what = "due" -> s[i].at >= t
                 [] s[i].what = "open" -> /\ (s[i].wdl = -1 \/ s[i].wdl >= t)
                                          /\ s[i].why = {}
                                          /\ IF s[i].fin THEN s[i].ghi >= t ELSE s[i].hi + (IF s[i].wdl = -1 THEN 0 ELSE cfg.grace) >= t
                 [] OTHER -> TRUE
  /\ UNCHANGED <<cfg, q, ep, known, shutting, gone, dead, occurred, delivered, sent>>
\* ---- at rest: everything due has happened
Quiet(r) == CASE r.what = "due" -> r.at > now
              [] r.what = "open" -> /\ r.why = {} /\ (r.wdl = -1 \/ r.wdl > now)
                                  /\ IF r.fin THEN r.ghi > now /\ (r.wdl = -1 => r.term = 1)
                                     ELSE r.hi + (IF r.wdl = -1 THEN 0 ELSE cfg.grace) > now
              [] OTHER -> TRUE
===============================================================================

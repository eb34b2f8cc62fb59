------------------------------- MODULE Resolver -------------------------------
(* A host of an asynchronous name resolution library (C39).  The library opens  *)
(* and closes sockets, says what it waits for on each, sends queries that time   *)
(* out, and ends each question it was asked.  Its host has to ask it every       *)
(* question, tell it of every socket that became ready and of every moment at    *)
(* which a query times out, and hand what it ends a question with to whoever     *)
(* asked, once.                                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT Slack     \* how late the library may be told, in units of time
VARIABLES now,
          rs,      \* resolver -> "live" | "gone"
          own,     \* library channel -> resolver
          rq,      \* questions: [r, name, f, stop, st, k]; st: new, asked, ended, done
          lq,      \* library's queries: k -> [c, name, f, q, st, dl, fd, ok, l]; st: asked, sent, ended
          sk,      \* open sockets: fd -> [r, w, n, out, broken]
          last     \* socket whose interest was told last
hvars == <<now, rs, own, rq, lq, sk, last>>
Empty == [x \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
HInit == now = 0 /\ rs = Empty /\ own = Empty /\ rq = <<>> /\ lq = Empty /\ sk = Empty /\ last = 0

Resolve(r, name, f, stop) ==
  /\ r \in DOMAIN rs /\ rs[r] = "live"
  /\ rq' = Append(rq, [r |-> r, name |-> name, f |-> f, stop |-> stop, st |-> "new", k |-> 0])
  /\ UNCHANGED <<now, rs, own, lq, sk, last>>
\* the library is asked: exactly what was asked of the resolver
Asked(k, c, name, f) ==
  /\ k \notin DOMAIN lq /\ c \in DOMAIN own
  /\ \E i \in 1..Len(rq) : /\ rq[i].st = "new" /\ rq[i].r = own[c] /\ rq[i].name = name /\ rq[i].f = f
                           /\ rq' = [rq EXCEPT ![i].st = "asked", ![i].k = k]
                           /\ lq' = With(lq, k, [c |-> c, q |-> i, st |-> "asked", dl |-> 0, fd |-> 0, ok |-> 0, l |-> <<>>])
  /\ UNCHANGED <<now, rs, own, sk, last>>
\* ... or asked by somebody who is not watched
AskedUnseen(k, c) ==
  /\ k \notin DOMAIN lq /\ lq' = With(lq, k, [c |-> c, q |-> 0, st |-> "asked", dl |-> 0, fd |-> 0, ok |-> 0, l |-> <<>>])
  /\ UNCHANGED <<now, rs, own, rq, sk, last>>
Sent(k, fd, dl) == /\ k \in DOMAIN lq /\ lq[k].st # "ended"
                   /\ lq' = [lq EXCEPT ![k].st = "sent", ![k].dl = dl, ![k].fd = fd]
                   /\ UNCHANGED <<now, rs, own, rq, sk, last>>
Told(fd, r, w) ==
  /\ last' = fd
  /\ sk' = IF r = 0 /\ w = 0 THEN Less(sk, fd)
           ELSE IF fd \in DOMAIN sk THEN [sk EXCEPT ![fd].r = r, ![fd].w = w, ![fd].broken = FALSE]
           ELSE With(sk, fd, [r |-> r, w |-> w, n |-> 0, out |-> FALSE, broken |-> FALSE])
  /\ UNCHANGED <<now, rs, own, rq, lq>>
\* the resolver could not watch the socket: its queries run into their timeouts
Fault == sk' = (IF last \in DOMAIN sk THEN [sk EXCEPT ![last].broken = TRUE] ELSE sk) /\ UNCHANGED <<now, rs, own, rq, lq, last>>
Arrives(fd) == fd \in DOMAIN sk /\ sk' = [sk EXCEPT ![fd].n = @ + 1] /\ UNCHANGED <<now, rs, own, rq, lq, last>>
Connects(fd) == fd \in DOMAIN sk /\ sk' = [sk EXCEPT ![fd].out = TRUE] /\ UNCHANGED <<now, rs, own, rq, lq, last>>
Reads(fd) == fd \in DOMAIN sk /\ sk' = [sk EXCEPT ![fd].n = 0] /\ UNCHANGED <<now, rs, own, rq, lq, last>>
Flushes(fd) == fd \in DOMAIN sk /\ sk[fd].out /\ sk' = [sk EXCEPT ![fd].out = FALSE] /\ UNCHANGED <<now, rs, own, rq, lq, last>>
Ends(k, ok, l) == /\ k \in DOMAIN lq /\ lq[k].st # "ended"
                  /\ lq' = IF lq[k].q = 0 THEN Less(lq, k) ELSE [lq EXCEPT ![k].st = "ended", ![k].ok = ok, ![k].l = l]
                  /\ rq' = IF lq[k].q = 0 THEN rq ELSE [rq EXCEPT ![lq[k].q].st = "ended"]
                  /\ UNCHANGED <<now, rs, own, sk, last>>
\* what the asker is shown: the addresses it can use, until it has seen enough
Known(l) == SelectSeq(l, LAMBDA a : a[1] \in {4, 6})
Min(a, b) == IF a < b THEN a ELSE b
Shown(l, stop) == IF stop = 0 THEN Known(l) ELSE SubSeq(Known(l), 1, Min(stop, Len(Known(l))))
Stopped(l, stop) == stop # 0 /\ Len(Known(l)) >= stop
Called(q, err, l, all) ==
  /\ q \in 1..Len(rq) /\ rq[q].st = "ended"
  /\ LET e == lq[rq[q].k] IN
       /\ err = 1 - e.ok
       /\ l = Shown(IF e.ok = 1 THEN e.l ELSE <<>>, rq[q].stop)
       /\ all = IF e.ok = 1 /\ Stopped(e.l, rq[q].stop) THEN 0 ELSE 1
  /\ rq' = [rq EXCEPT ![q].st = "done"]
  /\ UNCHANGED <<now, rs, own, lq, sk, last>>
\* nothing is left to be told the library or the asker
Quiet == /\ \A i \in 1..Len(rq) : rq[i].st \notin {"new", "ended"}
         /\ \A fd \in DOMAIN sk : sk[fd].broken \/ ~((sk[fd].r = 1 /\ sk[fd].n > 0) \/ (sk[fd].w = 1 /\ sk[fd].out))
Waiting == {k \in DOMAIN lq : lq[k].st = "sent"}
Pass(t) == /\ t >= now /\ Quiet /\ (\A k \in Waiting : t <= lq[k].dl + Slack)
           /\ now' = t /\ UNCHANGED <<rs, own, rq, lq, sk, last>>
\* at rest: only open sockets are watched, one channel for each resolver
Rest(watched) == Quiet /\ (\A fd \in watched : fd \in DOMAIN sk)
Live == {r \in DOMAIN rs : rs[r] = "live"}
Made(r, c) == /\ r \notin DOMAIN rs /\ rs' = With(rs, r, "live")
              /\ own' = (IF c = 0 THEN own ELSE With(own, c, r)) /\ UNCHANGED <<now, rq, lq, sk, last>>
Gone(r) == /\ r \in Live /\ (\A i \in 1..Len(rq) : rq[i].r = r => rq[i].st = "done")
           /\ rs' = [rs EXCEPT ![r] = "gone"] /\ UNCHANGED <<now, own, rq, lq, sk, last>>
===============================================================================

----------------------------- MODULE SpansTrace -------------------------------
EXTENDS Spans, TraceKit
VARIABLES pend,     \* thread -> the call under way (with done, and what it has read)
          tid, l
tvars == <<legacy, delta, ctxs, spans, seen, pend, tid, l>>
None == [op |-> "none"]

TInit == /\ tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new"
         /\ legacy = Traces[tid][1].legacy /\ delta = Traces[tid][1].delta
         /\ ctxs = <<>> /\ spans = <<>> /\ seen = {} /\ pend = [t \in 0..3 |-> None]

Ev == Traces[tid][l]
Same == UNCHANGED <<legacy, delta, ctxs, spans, seen>>

Obs(e) == [hi |-> e.hi, lo |-> e.lo, sid |-> e.sid, bag |-> Pairs(e.bag)]
Agrees(c, e) == /\ e.hi = c.hi /\ e.lo = c.lo /\ e.sid = c.sid
                /\ c.loose \/ (e.fl = c.fl /\ Pairs(e.bag) = c.bag /\ e.ts = c.ts)

Given(e) == /\ e.e = "x"
            /\ LET c == [hi |-> e.hi, lo |-> e.lo, sid |-> e.sid, fl |-> e.fl, ts |-> e.ts, bag |-> Pairs(e.bag), loose |-> FALSE] IN
               /\ Agrees(c, e.got)
               /\ ctxs' = (e.id :> c) @@ ctxs
            /\ seen' = seen \cup {e.lo, e.sid}
            /\ UNCHANGED <<legacy, delta, spans, pend>>

Valid(o) == SelectSeq(o.refs, IsContext)
Call(e) == /\ e.e = "c" /\ pend[e.t] = None
           /\ pend' = [pend EXCEPT ![e.t] =
                 IF e.op = "s" THEN [op |-> "s", o |-> e, done |-> FALSE,
                                     todo |-> {<<i, w>> : i \in DOMAIN Valid(e), w \in {"fl", "bag"}},
                                     f |-> [i \in DOMAIN Valid(e) |-> 0], poss |-> Empty]
                 ELSE [op |-> e.op, o |-> e, done |-> FALSE, due |-> <<>>, got |-> <<>>]]
           /\ Same

\* ---- the moments at which calls take effect
Take(p, x) == LET r == Of(Valid(p.o)[x[1]]) IN
  [p EXCEPT !.todo = @ \ {x},
            !.f = IF x[2] = "fl" THEN [@ EXCEPT ![x[1]] = r.fl] ELSE @,
            !.poss = IF x[2] = "bag" THEN Merge(@, r.bag) ELSE @]
RECURSIVE TakeAll(_)
TakeAll(p) == IF p.todo = {} THEN p ELSE TakeAll(Take(p, CHOOSE x \in p.todo : TRUE))
Alone(t) == \A u \in DOMAIN pend \ {t} : pend[u] = None
ReadRef(t) == /\ pend[t].op = "s" /\ pend[t].todo # {}
              /\ IF Alone(t) THEN pend' = [pend EXCEPT ![t] = TakeAll(@)]
                 ELSE \E x \in pend[t].todo : pend' = [pend EXCEPT ![t] = Take(@, x)]
              /\ Same

Effect(t) ==
  LET p == pend[t]
      o == p.o
      s == spans[o.id]
      Upd(n) == spans' = [spans EXCEPT ![o.id] = n]
      Fin(due) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].due = due]
      Sees(x) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].got = <<x>>]
  IN /\ p.op \notin {"none", "s"} /\ ~p.done
     /\ CASE p.op = "n" -> Upd(Named(s, o.name)) /\ Fin(<<>>)
          [] p.op = "t" -> Upd(Tagged(s, o.k, o.v)) /\ Fin(<<>>)
          [] p.op = "b" -> Upd(Bagged(s, o.k, o.v)) /\ Fin(<<>>)
          [] p.op = "l" -> Upd(Logged(s, Add(o.now, delta), o.f)) /\ Fin(<<>>)
          [] p.op = "f" -> Upd(Ended(s)) /\ Fin(Record(s, IF o.ste = <<>> THEN o.now ELSE o.ste, o.logs))
          [] p.op = "d" -> Upd(Ended(s)) /\ Fin(Record(s, o.now, <<>>))
          [] OTHER -> UNCHANGED spans /\ Sees(s)
     /\ UNCHANGED <<legacy, delta, ctxs, seen>>

Recorded(e) ==
  /\ e.e = "rec" /\ pend[e.t].op \in {"f", "d"} /\ pend[e.t].done /\ pend[e.t].due # <<>>
  /\ LET r == pend[e.t].due[1] IN
     /\ e.good = 1
     /\ r.name = e.name /\ r.tags = e.tags /\ r.logs = e.logs /\ r.refs = e.refs /\ r.lo = e.lo /\ r.sid = e.sid
     /\ r.bag = Pairs(e.bag) /\ r.start = e.start /\ r.dur \in {e.dur, -1}
  /\ pend' = [pend EXCEPT ![e.t].due = <<>>]
  /\ Same

Return(e) ==
  /\ e.e = "r" /\ pend[e.t] # None
  /\ LET p == pend[e.t] IN
     IF p.op = "s" THEN
        /\ p.todo = {} /\ "none" \notin DOMAIN e
        /\ IdsRight(p.o, p.poss, Obs(e))
        /\ LET n == Started(p.o, p.f, p.poss, Obs(e)) IN
           /\ n.fl = e.fl /\ n.ts = e.ts
           /\ spans' = (p.o.id :> n) @@ spans
        /\ seen' = seen \cup {e.lo, e.sid}
        /\ UNCHANGED <<legacy, delta, ctxs>>
     ELSE
        /\ p.done /\ p.due = <<>> /\ Same
        /\ LET s == IF p.got = <<>> THEN None ELSE p.got[1] IN
           CASE p.op = "g" -> s.loose \/ e.v = (IF p.o.k \in DOMAIN s.bag THEN s.bag[p.o.k] ELSE "")
             [] p.op = "q" -> s.loose \/ e.fl = s.fl
             [] p.op = "o" -> Agrees(s, e)
             [] p.op = "a" -> s.loose \/ Pairs(e.bag) = s.bag
             [] p.op = "i" -> /\ e.good = 1 /\ e.lo = s.lo /\ e.sid = s.sid
                              /\ s.loose \/ (e.fl = s.fl /\ Pairs(e.bag) = s.bag)
             [] OTHER -> TRUE
  /\ pend' = [pend EXCEPT ![e.t] = None]

Step(e) == \/ Given(e) \/ Call(e) \/ Recorded(e) \/ Return(e)
           \/ e.e = "end" /\ (\A t \in DOMAIN pend : pend[t] = None) /\ Same /\ UNCHANGED pend
\* delaying a call's effect beyond what shows it changes nothing
Silent == Ev.e \in {"r", "rec"} /\ \E t \in DOMAIN pend : ReadRef(t) \/ Effect(t)

TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
==============================================================================

-------------------------------- MODULE Events --------------------------------
(* Owning wrappers of events, periodic timers and one-shot callbacks (C35).     *)
(* A wrapper holds at most one registration; a registration has one holder.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES own,   \* wrapper -> registration it holds (0: none)
          tvs,   \* timer wrapper -> its period
          objs,  \* registration -> what was asked for and when it is due
          once,  \* one-shot callbacks waiting
          bas,   \* loop wrapper -> loop (0: none)
          now, lv, brk
evars == <<own, tvs, objs, once, bas, now, lv, brk>>
EInit == own = <<>> /\ tvs = <<>> /\ objs = <<>> /\ once = {} /\ bas = <<>> /\ now = 0 /\ lv = <<>> /\ brk = FALSE
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Bit(n, b) == (n \div b) % 2 = 1
\* releasing what wrapper w holds
Freed(o, w) == IF w \in DOMAIN own /\ own[w] # 0 THEN Without(o, own[w]) ELSE o
New(d, b, id, fd, opt, pend, due, per) ==
  /\ id \notin DOMAIN objs
  /\ objs' = With(Freed(objs, d), id, [fd |-> fd, opt |-> opt, pend |-> pend, due |-> due, per |-> per, base |-> bas[b]])
  /\ own' = With(own, d, id)
  /\ UNCHANGED <<once, bas, now, lv, brk>>
NewEvent(d, b, id, fd, opt) == d \notin DOMAIN own /\ New(d, b, id, fd, opt, FALSE, -1, 0) /\ UNCHANGED tvs
NewTimer(d, b, id, ms) == d \notin DOMAIN own /\ New(d, b, id, -1, 16, TRUE, now + ms, ms) /\ tvs' = With(tvs, d, ms)
NewIdleTimer(d, b, id) == d \notin DOMAIN own /\ New(d, b, id, -1, 16, FALSE, -1, 0) /\ tvs' = With(tvs, d, 0)
Null(d, timer) == /\ d \notin DOMAIN own /\ own' = With(own, d, 0) /\ tvs' = IF timer THEN With(tvs, d, 0) ELSE tvs
                  /\ UNCHANGED <<objs, once, bas, now, lv, brk>>
MoveInto(d, s) == /\ d \notin DOMAIN own /\ s \in DOMAIN own /\ own' = With(With(own, s, 0), d, own[s])
                  /\ tvs' = IF s \in DOMAIN tvs THEN With(tvs, d, tvs[s]) ELSE tvs
                  /\ UNCHANGED <<objs, once, bas, now, lv, brk>>
Assign(d, s) == /\ d \in DOMAIN own /\ s \in DOMAIN own /\ d # s
                /\ objs' = Freed(objs, d) /\ own' = With(With(own, s, 0), d, own[s])
                /\ tvs' = IF s \in DOMAIN tvs THEN With(tvs, d, tvs[s]) ELSE tvs
                /\ UNCHANGED <<once, bas, now, lv, brk>>
Swap(d, s) == /\ d \in DOMAIN own /\ s \in DOMAIN own /\ d # s /\ own' = With(With(own, s, own[d]), d, own[s])
              /\ UNCHANGED <<tvs, objs, once, bas, now, lv, brk>>
Delete(d) == /\ d \in DOMAIN own /\ objs' = Freed(objs, d) /\ own' = Without(own, d) /\ tvs' = Without(tvs, d)
             /\ UNCHANGED <<once, bas, now, lv, brk>>
Holds(d) == d \in DOMAIN own /\ own[d] # 0
Set(d, r) == objs' = With(objs, own[d], r) /\ UNCHANGED <<own, once, bas, now, lv, brk>>
\* no time means: for as long as it takes
Add(d, ms) == /\ Holds(d)
              /\ Set(d, [objs[own[d]] EXCEPT !.pend = TRUE, !.due = IF ms >= 0 THEN now + ms ELSE @,
                                             !.per = IF ms >= 0 /\ Bit(objs[own[d]].opt, 16) THEN ms ELSE @])
              /\ UNCHANGED tvs
Remove(d) == Holds(d) /\ Set(d, [objs[own[d]] EXCEPT !.pend = FALSE, !.due = -1]) /\ UNCHANGED tvs
\* a timer that is reset starts anew from now
Reset(d) == Holds(d) /\ d \in DOMAIN tvs /\ Set(d, [objs[own[d]] EXCEPT !.pend = TRUE, !.due = now + tvs[d], !.per = tvs[d]]) /\ UNCHANGED tvs
ResetTo(d, ms) == /\ Holds(d) /\ d \in DOMAIN tvs
                  /\ Set(d, [objs[own[d]] EXCEPT !.pend = ms >= 0, !.due = IF ms >= 0 THEN now + ms ELSE -1, !.per = IF ms >= 0 THEN ms ELSE @])
                  /\ tvs' = IF ms >= 0 THEN With(tvs, d, ms) ELSE tvs
Once(b, id, ms) == /\ \A o \in once : o.id # id
                   /\ once' = once \cup {[id |-> id, due |-> now + ms, base |-> bas[b]]}
                   /\ UNCHANGED <<own, tvs, objs, bas, now, lv, brk>>
Level(fd, v) == lv' = With(lv, fd, v) /\ UNCHANGED <<own, tvs, objs, once, bas, now, brk>>
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Wants(o, bit) == Bit(o.opt, bit) /\ Bit(At(lv, o.fd), bit)
TimedOut(o) == o.pend /\ o.due >= 0 /\ o.due <= now
Readable(o) == o.pend /\ o.fd >= 0 /\ (Wants(o, 2) \/ Wants(o, 4))
Fireable(id) == TimedOut(objs[id]) \/ Readable(objs[id])
Why(id) == LET o == objs[id] IN (IF TimedOut(o) THEN {1} ELSE {}) \cup (IF o.pend /\ Wants(o, 2) THEN {2} ELSE {})
                                \cup (IF o.pend /\ Wants(o, 4) THEN {4} ELSE {})
AfterFire(o, timedout) ==
  IF Bit(o.opt, 16) THEN (IF o.per > 0 THEN [o EXCEPT !.due = (IF timedout THEN o.due ELSE now) + o.per]
                          ELSE IF timedout THEN [o EXCEPT !.pend = FALSE, !.due = -1] ELSE o)
  ELSE [o EXCEPT !.pend = FALSE, !.due = -1]
Fire(id, timedout) == /\ id \in DOMAIN objs /\ Fireable(id) /\ ~brk
                      /\ objs' = With(objs, id, AfterFire(objs[id], timedout))
                      /\ UNCHANGED <<own, tvs, once, bas, now, lv, brk>>
FireOnce(o) == /\ o \in once /\ o.due <= now /\ ~brk /\ once' = once \ {o}
               /\ UNCHANGED <<own, tvs, objs, bas, now, lv, brk>>
Quiet(t) == /\ \A o \in once : o.due >= t
            /\ \A id \in DOMAIN objs : objs[id].pend => ~Readable(objs[id]) /\ (objs[id].due >= 0 => objs[id].due >= t)
\* time does not pass over anything that is due
Pass(t) == t >= now /\ (t > now => Quiet(t)) /\ now' = t /\ UNCHANGED <<own, tvs, objs, once, bas, lv, brk>>
Waiting == once # {} \/ \E id \in DOMAIN objs : objs[id].pend
NewBase(b, n) == b \notin DOMAIN bas /\ bas' = With(bas, b, n) /\ UNCHANGED <<own, tvs, objs, once, now, lv, brk>>
\* a loop is released with its last holder, and the one-shot callbacks waiting in it with it
Dropped(b) == IF b \in DOMAIN bas /\ bas[b] # 0 THEN {o \in once : o.base # bas[b]} ELSE once
MoveBase(d, s) == d \notin DOMAIN bas /\ s \in DOMAIN bas /\ bas' = With(With(bas, s, 0), d, bas[s]) /\ UNCHANGED <<own, tvs, objs, once, now, lv, brk>>
AssignBase(d, s) == /\ d \in DOMAIN bas /\ s \in DOMAIN bas /\ d # s /\ bas' = With(With(bas, s, 0), d, bas[s]) /\ once' = Dropped(d)
                    /\ UNCHANGED <<own, tvs, objs, now, lv, brk>>
DeleteBase(b) == b \in DOMAIN bas /\ bas' = Without(bas, b) /\ once' = Dropped(b) /\ UNCHANGED <<own, tvs, objs, now, lv, brk>>
Break == brk' = TRUE /\ UNCHANGED <<own, tvs, objs, once, bas, now, lv>>
Begin == brk' = FALSE /\ UNCHANGED <<own, tvs, objs, once, bas, now, lv>>
\* every registration has exactly one holder
OneHolder == \A id \in DOMAIN objs : Cardinality({w \in DOMAIN own : own[w] = id}) = 1
Bases == {bas[b] : b \in DOMAIN bas} \ {0}
===============================================================================

------------------------------ MODULE EventTrace ------------------------------
(* Recorded operations on the real wrappers over a stand-in for the event        *)
(* library (C35): what is alive there after every operation, and every callback. *)
EXTENDS Events, TraceKit
VARIABLES faults, nb, tid, l
tvars == <<evars, faults, nb, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ EInit /\ faults = {} /\ nb = 0
Keep == UNCHANGED evars
\* the library refuses what the operation needs: the operation reports it, and nothing is left of it
Refused(e, which) == e.thrown = 1 /\ which \in faults /\ faults' = faults \ {which}
Fine(e) == e.thrown = 0 /\ faults' = faults
Mk(e, which, ok) == IF which \in faults THEN Refused(e, which) /\ Keep ELSE Fine(e) /\ ok
Op(e) ==
  CASE e.e = "base" -> Mk(e, "base", NewBase(e.b, nb + 1))
    [] e.e = "bmc" -> Fine(e) /\ MoveBase(e.b, e.s)
    [] e.e = "bma" -> Fine(e) /\ AssignBase(e.b, e.s)
    [] e.e = "bdel" -> Fine(e) /\ DeleteBase(e.b)
    [] e.e = "new" -> Mk(e, "new", NewEvent(e.d, e.b, e.id, e.fd, e.opt))
    [] e.e = "null" -> Fine(e) /\ Null(e.d, FALSE)
    [] e.e = "tnull" -> Fine(e) /\ Null(e.d, TRUE)
    [] e.e \in {"mc", "tmc"} -> Fine(e) /\ MoveInto(e.d, e.s)
    [] e.e \in {"ma", "tma"} -> Fine(e) /\ Assign(e.d, e.s)
    [] e.e = "sw" -> Fine(e) /\ Swap(e.d, e.s)
    [] e.e \in {"del", "tdel"} -> Fine(e) /\ Delete(e.d)
    [] e.e = "add" -> Mk(e, "add", Add(e.d, e.ms))
    [] e.e = "rm" -> Fine(e) /\ Remove(e.d)
    [] e.e = "timer" -> IF "new" \in faults \/ "add" \notin faults THEN Mk(e, "new", NewTimer(e.d, e.b, e.id, e.ms)) ELSE Refused(e, "add") /\ Keep
    [] e.e = "timer0" -> Mk(e, "new", NewIdleTimer(e.d, e.b, e.id))
    \* a timer that could not be restarted is either as it was or stopped
    [] e.e = "reset" -> IF "add" \in faults THEN Refused(e, "add") /\ (Keep \/ Remove(e.d)) ELSE Fine(e) /\ Reset(e.d)
    [] e.e = "resettv" -> IF "add" \in faults /\ e.ms >= 0
                          THEN /\ Refused(e, "add") /\ (objs' = objs \/ objs' = With(objs, own[e.d], [objs[own[e.d]] EXCEPT !.pend = FALSE, !.due = -1]))
                               /\ (tvs' = tvs \/ tvs' = With(tvs, e.d, e.ms)) /\ UNCHANGED <<own, once, bas, now, lv, brk>>
                          ELSE Fine(e) /\ ResetTo(e.d, e.ms)
    [] e.e = "once" -> Mk(e, "once", Once(e.b, e.id, e.ms))
    [] e.e = "break" -> Mk(e, "break", Break)
    [] e.e = "fd" -> Fine(e) /\ Level(e.fd, e.lv)
    [] e.e = "fault" -> e.thrown = 0 /\ faults' = faults \cup {e.f} /\ Keep
    [] e.e = "adv" -> Fine(e) /\ Quiet(now) /\ Keep
    \* dispatching ends when told to, or reports that there is nothing to wait for
    [] e.e = "disp" -> IF "dispatch" \in faults THEN Refused(e, "dispatch") /\ Keep
                       ELSE faults' = faults /\ Keep /\ (IF e.thrown = 0 THEN brk ELSE e.thrown = 1 /\ ~brk /\ ~Waiting)
    [] OTHER -> FALSE
Counted(e) == /\ e.bad = 0
              /\ e.live = Cardinality(DOMAIN objs') /\ e.once = Cardinality(once')
              /\ e.bases = Cardinality({bas'[b] : b \in DOMAIN bas'} \ {0})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + Sum(S \ {x})
Called(e) ==
  \/ /\ e.id \in DOMAIN objs /\ e.now = now
     /\ \E why \in SUBSET Why(e.id) : /\ why # {} /\ e.what = Sum(why) /\ Fire(e.id, 1 \in why)
     /\ e.fd = objs[e.id].fd
  \/ /\ e.now = now /\ e.fd = -1 /\ e.what = 1 /\ \E o \in once : o.id = e.id /\ FireOnce(o)
Step(e) ==
  \/ e.e = "fire" /\ Called(e) /\ UNCHANGED <<faults, nb>>
  \/ e.e = "now" /\ Pass(e.t) /\ UNCHANGED <<faults, nb>>
  \/ e.e = "dispc" /\ Begin /\ UNCHANGED <<faults, nb>>
  \/ /\ e.e = "blocked" /\ brk' = TRUE /\ UNCHANGED <<own, tvs, objs, once, bas, now, lv, faults, nb>>
     /\ once = {} /\ \A id \in DOMAIN objs : objs[id].pend => objs[id].due < 0 /\ ~Readable(objs[id])
  \/ e.e \notin {"fire", "now", "dispc", "blocked"} /\ Op(e) /\ Counted(e) /\ nb' = nb + (IF e.e = "base" /\ e.thrown = 0 THEN 1 ELSE 0)
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

------------------------------ MODULE EventModel ------------------------------
(* Everything a few wrappers can go through (C35) in a few units of time.        *)
EXTENDS Events, Json
CONSTANTS EvNames, TmNames, MaxDue, MaxOnce, MaxNow
VARIABLES act, mode
mvars == <<evars, act, mode>>
Fresh == CHOOSE n \in 1..20 : n \notin DOMAIN objs /\ \A o \in once : o.id # n + 100
FreshOnce == CHOOSE n \in 101..120 : \A o \in once : o.id # n
MInit == /\ own = <<>> /\ tvs = <<>> /\ objs = <<>> /\ once = {} /\ bas = [b \in {"B"} |-> 1] /\ now = 0 /\ lv = [f \in {5} |-> 0] /\ brk = FALSE
         /\ act = [op |-> "init"] /\ mode = "ops"
A(r) == act' = r
Ev == EvNames \cup TmNames
Rm(x, y) == (x \in EvNames /\ y \in EvNames) \/ (x \in TmNames /\ y \in TmNames)
Ops ==
  \/ \E d \in EvNames :
      \/ \E k \in {<<5, 2>>, <<5, 4>>, <<-1, 0>>, <<-1, 16>>} : NewEvent(d, "B", Fresh, k[1], k[2]) /\ A([op |-> "new", d |-> d, fd |-> k[1], opt |-> k[2]])
      \/ Null(d, FALSE) /\ A([op |-> "null", d |-> d])
      \/ \E ms \in {-1} \cup 1..MaxDue : /\ Holds(d) /\ (ms = -1 => objs[own[d]].fd = 5)
                                         /\ Add(d, ms) /\ A([op |-> "add", d |-> d, ms |-> ms])
      \/ Remove(d) /\ A([op |-> "rm", d |-> d])
      \/ Delete(d) /\ A([op |-> "del", d |-> d])
  \/ \E d \in TmNames :
      \/ \E ms \in 1..MaxDue : NewTimer(d, "B", Fresh, ms) /\ A([op |-> "timer", d |-> d, ms |-> ms])
      \/ NewIdleTimer(d, "B", Fresh) /\ A([op |-> "timer0", d |-> d])
      \/ Null(d, TRUE) /\ A([op |-> "tnull", d |-> d])
      \/ Holds(d) /\ tvs[d] > 0 /\ Reset(d) /\ A([op |-> "reset", d |-> d])
      \/ \E ms \in {-1} \cup 1..MaxDue : ResetTo(d, ms) /\ A([op |-> "resettv", d |-> d, ms |-> ms])
      \/ Delete(d) /\ A([op |-> "tdel", d |-> d])
  \/ \E d, s \in Ev : Rm(d, s) /\ LET p == IF d \in TmNames THEN "t" ELSE "" IN
      \/ MoveInto(d, s) /\ A([op |-> p \o "mc", d |-> d, s |-> s])
      \/ Assign(d, s) /\ A([op |-> p \o "ma", d |-> d, s |-> s])
  \/ \E ms \in 0..MaxDue : Cardinality(once) < MaxOnce /\ Once("B", FreshOnce, ms) /\ A([op |-> "once", ms |-> ms])
  \/ \E v \in {0, 2, 4} : v # lv[5] /\ Level(5, v) /\ A([op |-> "fd", v |-> v])
AnyFire == (\E id \in DOMAIN objs : Fireable(id)) \/ \E o \in once : o.due <= now
Fires == \/ \E id \in DOMAIN objs : Fireable(id) /\ (\A j \in DOMAIN objs : Fireable(j) => id <= j) /\ Fire(id, 1 \in Why(id))
         \/ /\ ~\E id \in DOMAIN objs : Fireable(id)
            /\ \E o \in once : o.due <= now /\ FireOnce(o)
MNext ==
  \/ mode = "ops" /\ Ops /\ mode' = mode
  \/ mode = "ops" /\ mode' = "run" /\ A([op |-> "adv"]) /\ UNCHANGED evars
  \/ mode \in {"run", "last"} /\ Fires /\ mode' = mode /\ A([op |-> "fire"])
  \/ mode = "run" /\ ~AnyFire /\ Pass(now + 1) /\ mode' = "last" /\ A([op |-> "tick"])
  \/ mode = "last" /\ ~AnyFire /\ mode' = "ops" /\ A([op |-> "rest"]) /\ UNCHANGED evars
MSpec == MInit /\ [][MNext]_mvars
Rel(d) == IF d < 0 THEN -1 ELSE d - now
V(o, t, ob, on, l, n) == <<o, t, [i \in DOMAIN ob |-> [ob[i] EXCEPT !.due = IF @ < 0 THEN -1 ELSE @ - n]], {[x EXCEPT !.due = @ - n] : x \in on}, l>>
MView == <<V(own, tvs, objs, once, lv, now), mode>>
MOk == now <= MaxNow
Inv == OneHolder /\ \A id \in DOMAIN objs : objs[id].pend /\ objs[id].due >= 0 => objs[id].due >= now
MEmit == PrintT("T" \o ToJson([f |-> <<V(own, tvs, objs, once, lv, now), mode>>, a |-> act', t |-> <<V(own', tvs', objs', once', lv', now'), mode'>>]))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(<<V(own, tvs, objs, once, lv, now), mode>>)) ELSE TRUE
===============================================================================

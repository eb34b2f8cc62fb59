---------------------------- MODULE SatelliteModel ----------------------------
(* A small pool against a network that takes, blocks or breaks (k: per slot,     *)
(* "flow", "stop", "broken").  What the code does of itself comes before the next *)
(* thing that happens to it.  For the replay every step that happens to the code  *)
(* names its socket by its place among the open ones.                             *)
EXTENDS Satellite, Json
CONSTANTS NC, NE0, MaxAdds, Wt, Retry, Period, Grace, Rich
VARIABLES k, n, busy, nid, act
mvars == <<svars, k, n, busy, nid, act>>
Conf == [nc |-> NC, wt |-> Wt, retry |-> Retry, min |-> Period, max |-> Period, grace |-> Grace, eps |-> [i \in 1..NE0 |-> <<i - 1, 80 + i>>], cap |-> 4]
MInit == /\ SInit(Conf) /\ k = [i \in 1..NC |-> "stop"] /\ n = 0 /\ busy = FALSE /\ nid = 0 /\ act = [op |-> "init"]
A(r) == act' = r
Opens == {i \in Slots : Is(i, "open")}
Pos(i) == Cardinality({j \in Opens : sl[j].id < sl[i].id})
K(i, v) == k' = [k EXCEPT ![i] = v]
Rest(i) == Len(Items(i, sl[i].fin))
\* a flush of connection i, answered as the network stands
DoFlush(i) == CASE k[i] = "flow" -> Write(i, sl[i].fin, Rest(i), FALSE, TRUE, FALSE, 0, {})
                [] k[i] = "stop" -> Write(i, sl[i].fin, 0, FALSE, Rest(i) = 0, FALSE, 0, {})
                [] OTHER -> IF Rest(i) = 0 THEN Write(i, sl[i].fin, 0, FALSE, TRUE, FALSE, 0, {}) ELSE Write(i, sl[i].fin, 0, FALSE, FALSE, TRUE, 0, {})
Armed(i) == Is(i, "open") /\ sl[i].wdl # -1 /\ sl[i].why = {}
Own == UNCHANGED <<n, busy, nid, k>>
\* what the code does of itself, in any order
Closing(i) == Is(i, "open") /\ Reasons(i) # {}
Finishing(i) == Is(i, "open") /\ sl[i].fin /\ sl[i].wdl = -1 /\ sl[i].term = 0 /\ sl[i].why = {}
Internal ==
  \/ \E i \in Slots : \E why \in Reasons(i) : Closing(i) /\ Close(i, why) /\ K(i, "stop") /\ UNCHANGED <<n, busy, nid>> /\ A([op |-> "close"])
  \/ \E i \in Slots : Finishing(i) /\ DoFlush(i) /\ Own /\ A([op |-> "own"])
  \/ \E i \in Slots : Is(i, "open") /\ ~Closing(i) /\ ~sl[i].fin /\ ~Finishing(i) /\ sl[i].hi = now /\ Renew(i) /\ Own /\ A([op |-> "own"])
  \/ \E i \in Slots : Armed(i) /\ k[i] # "stop" /\ DoFlush(i) /\ Own /\ A([op |-> "own"])
  \/ CanConnect /\ nid' = nid + 1 /\ UNCHANGED <<n, busy, k>> /\
       \/ Connected(nid + 1) /\ A([op |-> "conn", ok |-> 1])
       \/ Refused(0, NextEp) /\ A([op |-> "conn", ok |-> 0])
  \/ /\ busy /\ UNCHANGED <<n, nid, k>>
     /\ IF q = <<>> \/ ~\E i \in Slots : Ready(i)
        THEN busy' = FALSE /\ UNCHANGED svars /\ A([op |-> "own"])
        ELSE \E i \in Slots : Ready(i) /\ DoFlush(i) /\ UNCHANGED busy /\ A([op |-> "own"])
External ==
  \/ known = {} /\ known' = 0..(NE0 - 1) /\ sl' = [i \in Slots |-> IF Is(i, "idle") THEN Due(now) ELSE sl[i]]
     /\ UNCHANGED <<cfg, q, ep, shutting, gone, now, dead, occurred, delivered, sent>> /\ Own /\ A([op |-> "dns"])
  \/ n < MaxAdds /\ n' = n + 1 /\ q' = Append(q, n + 1) /\ UNCHANGED <<cfg, sl, ep, known, shutting, gone, now, dead, occurred, delivered, sent, k, busy, nid>> /\ A([op |-> "add"])
  \/ q # <<>> /\ busy' = TRUE /\ UNCHANGED <<svars, k, n, nid>> /\ A([op |-> "F"])
  \/ \E i \in Opens :
       \/ k[i] # "flow" /\ K(i, "flow") /\ UNCHANGED <<svars, n, busy, nid>> /\ A([op |-> "flow", i |-> Pos(i)])
       \/ k[i] = "flow" /\ K(i, "stop") /\ UNCHANGED <<svars, n, busy, nid>> /\ A([op |-> "stop", i |-> Pos(i)])
       \/ Rich /\ k[i] # "broken" /\ K(i, "broken") /\ UNCHANGED <<svars, n, busy, nid>> /\ A([op |-> "break", i |-> Pos(i)])
       \/ Rich /\ Armed(i) /\ k[i] = "stop" /\ \E m \in 0..(Rest(i) - 1), part \in BOOLEAN :
            /\ m > 0 \/ part
            /\ Write(i, sl[i].fin, m, part, FALSE, FALSE, 0, {}) /\ Own
            /\ A([op |-> "some", i |-> Pos(i), items |-> SubSeq(Items(i, sl[i].fin), 1, m + 1), part |-> IF part THEN 1 ELSE 0])
       \/ Reply(i, {"now"}) /\ Own /\ A([op |-> "eof", i |-> Pos(i)])
       \/ Rich /\ Reply(i, {"retry"}) /\ Own /\ A([op |-> "mal", i |-> Pos(i)])
  \/ ~shutting /\ Shutdown /\ Own /\ A([op |-> "shut"])
  \/ Pass(now + 1, sl) /\ Own /\ A([op |-> "adv"])
MNext == IF ENABLED Internal THEN Internal ELSE External
MSpec == MInit /\ [][MNext]_mvars

\* ---- what must hold
OneSocketEach == \A i, j \in Slots : i # j /\ Is(i, "open") /\ Is(j, "open") => sl[i].id # sl[j].id
NeverStuck == known # {} /\ ~shutting => \A i \in Slots : sl[i].what \in {"due", "open"} /\ (Is(i, "due") => sl[i].at >= now)
DownForGood == shutting => \A i \in Slots : sl[i].what # "due" /\ sl[i].what # "idle"
\* after a shutdown all are down within the time for a reply or the retry period
BoundedEnd == shutting => \A i \in Slots : CASE Is(i, "open") -> sl[i].ghi <= now + Grace
                                             [] Is(i, "ending") -> sl[i].at <= now + (IF Grace > Retry THEN Grace ELSE Retry)
                                             [] OTHER -> TRUE
TermLast == \A i \in Slots : Is(i, "open") /\ sl[i].term = 1 => sl[i].fin /\ sl[i].head /\ sl[i].cur = 0
OnePlace == \A i, j \in Slots : sl[i].cur > 0 => (i # j => sl[i].cur # sl[j].cur) /\ ~\E m \in 1..Len(q) : q[m] = sl[i].cur

\* ---- relative to now
R(t) == IF t > now THEN t - now ELSE 0
Rs(r, kk) == CASE r.what = "open" -> <<"o", IF r.wdl = -1 THEN -1 ELSE R(r.wdl), r.why, IF r.fin THEN R(r.ghi) ELSE 100 + R(r.hi), r.head, r.cur, r.term, kk>>
               [] r.what = "due" -> <<"d", R(r.at)>>
               [] r.what = "ending" -> <<"e", R(r.at)>>
               [] OTHER -> <<r.what>>
VJ == <<[i \in Slots |-> Rs(sl[i], k[i])], {<<i, j>> \in Slots \X Slots : Is(i, "open") /\ Is(j, "open") /\ sl[i].id < sl[j].id}, q, n, ep, known # {}, shutting, busy>>
MView == VJ
MEmit == PrintT("T" \o ToJson([f |-> VJ, a |-> act', t |-> VJ']))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(VJ)) ELSE TRUE
===============================================================================

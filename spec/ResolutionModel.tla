--------------------------- MODULE ResolutionModel ---------------------------
(* Small configurations of hosts and endpoints, in units of time.                *)
EXTENDS Resolution, Json
CONSTANTS EpsId, ListsId, MaxNow, Timed
\* configurations by number: hosts in each endpoint with its port, and the lists of addresses a name may resolve to
AllEps == << <<<<0, 80>>>>, <<<<0, 80>>, <<1, 81>>>>, <<<<0, 80>>, <<1, 81>>, <<0, 82>>>>, <<<<0, 81>>, <<1, 82>>, <<2, 80>>>>, <<<<0, 80>>, <<0, 81>>>> >>
AllLists == << {<<1>>}, {<<1>>, <<2, 3>>}, {<<1>>, <<2, 3>>, <<4, 5, 6>>} >>
Eps == AllEps[EpsId]
Lists == AllLists[ListsId]
NH == Cardinality({Eps[i][1] : i \in 1..Len(Eps)})
VARIABLES act
mvars == <<rvars, act>>
Conf == [min |-> 2, max |-> 2, retry |-> 1, nh |-> NH, eps |-> Eps]
MInit == RInit(Conf) /\ act = [op |-> "init"]
A(r) == act' = r
Started == \A k \in K(cfg) : st[k] # "new"
MNext ==
  IF ready = 1 THEN Announce /\ A([op |-> "ready"])
  ELSE IF ~Started THEN \E k \in K(cfg) : st[k] = "new" /\ (\A j \in K(cfg) : j[1] < k[1] \/ (j[1] = k[1] /\ j[2] < k[2]) => st[j] # "new") /\ Ask(k, now) /\ A([op |-> "ask"])
  ELSE IF \E k \in K(cfg) : st[k] = "due" /\ hi[k] = now THEN
         \E k \in K(cfg) : st[k] = "due" /\ hi[k] = now /\ Ask(k, now) /\ A([op |-> "ask"])
  ELSE \/ \E k \in K(cfg) : Failed(k) /\ A([op |-> "A", h |-> k[1], f |-> k[2], l |-> <<>>])
       \/ \E k \in K(cfg), s \in Lists : Resolved(k, s) /\ A([op |-> "A", h |-> k[1], f |-> k[2], l |-> s])
       \/ Timed /\ Pass(now + 1) /\ A([op |-> "adv"])
       \/ Usable /\ \E n \in 1..NE : \E p \in 1..Len(List(cfg.eps[n][1])) : Choose(n, p) /\ A([op |-> "R"])
MSpec == MInit /\ [][MNext]_mvars
\* times relative to now; without time every answer may be followed by another question at once
Rel(k) == IF st[k] = "due" THEN hi[k] - now ELSE 0
V == <<[k \in K(cfg) |-> <<st[k], Rel(k), addrs[k]>>], ready, ei, ai>>
Vs == {<<k, st[k], Rel(k), addrs[k]>> : k \in K(cfg)}
MView == <<Vs, ready, ei, ai>>
MOk == now <= MaxNow
\* every usable endpoint comes up within one turn
InvReady == (ready = 0) = ~Usable
InvAsked == Started /\ ready # 1 => \A k \in K(cfg) : st[k] = "asked" \/ hi[k] >= now
VJ == <<{<<k, st[k], Rel(k), addrs[k]>> : k \in K(cfg)}, ready, ei, {<<h, ai[h]>> : h \in 0..(NH - 1)}>>
MEmit == PrintT("T" \o ToJson([f |-> VJ, a |-> act', t |-> VJ']))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(VJ)) ELSE TRUE
===============================================================================

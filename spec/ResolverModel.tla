---------------------------- MODULE ResolverModel ----------------------------
(* One resolver over a small library: queries with retries and chains, one       *)
(* socket for datagrams, streams for truncated answers, sockets that break or     *)
(* cannot be watched.  Each command lets the library and its host react until    *)
(* all is quiet; Tells is FALSE for a host that does not tell the library of      *)
(* timeouts (which the invariants then refute).                                   *)
EXTENDS Resolver, Json
CONSTANTS MaxQ, MaxNow, Kinds, Faults, T, Tells
VARIABLES act, todo, env,   \* env: k -> [left, tries, hops, fin]
          msgs,             \* fd -> packets not yet read
          arm,              \* the next socket cannot be watched
          gone
mvars == <<hvars, act, todo, env, msgs, arm, gone>>
Plans == {[now |-> TRUE, tries |-> 1, hops |-> 0, fin |-> f] : f \in {"ok", "no"}}
         \cup {[now |-> FALSE, tries |-> t, hops |-> h, fin |-> f] : t \in {1, 2}, h \in {0, 1}, f \in {"ok"}}
         \cup {[now |-> FALSE, tries |-> 1, hops |-> 0, fin |-> "no"]}
L(fin) == IF fin = "ok" THEN <<<<4, 1>>, <<4, 2>>>> ELSE <<>>
MInit == /\ now = 0 /\ rs = With(Empty, 1, "live") /\ own = With(Empty, 1, 1) /\ rq = <<>> /\ lq = Empty /\ sk = Empty /\ last = 0
         /\ act = [op |-> "init"] /\ todo = <<>> /\ env = Empty /\ msgs = Empty /\ arm = FALSE /\ gone = FALSE
A(r) == act' = r
I == act' = [op |-> "step"]
Same4 == UNCHANGED <<env, msgs, arm, gone>>
\* a further try waits twice as long
Wait(k) == T * (IF env[k].left < env[k].tries THEN 2 ELSE 1)
Pop == Tail(todo)
Then(s) == todo' = s \o Pop
Free == CHOOSE fd \in 100..110 : fd \notin DOMAIN sk /\ \A g \in 100..(fd - 1) : g \in DOMAIN sk
Udp == {fd \in DOMAIN msgs : ~msgs[fd].tcp}
Used(fd) == \E k \in Waiting : lq[k].fd = fd
Unused == {fd \in DOMAIN sk : ~Used(fd)}
First(s) == CHOOSE x \in s : \A y \in s : x <= y
\* a packet for query k read from fd: what the library does
React(fd, m) ==
  LET k == m[1] IN
  IF m[2] = "s" \/ lq[k].st # "sent" \/ lq[k].fd # fd THEN <<>>
  ELSE IF m[2] = "f" THEN <<[s |-> "retry", k |-> k, tcp |-> msgs[fd].tcp]>>
  ELSE IF m[2] = "t" /\ ~msgs[fd].tcp THEN <<[s |-> "send", k |-> k, tcp |-> TRUE]>>
  ELSE IF env[k].hops > 0 THEN <<[s |-> "hop", k |-> k, tcp |-> msgs[fd].tcp]>>
  ELSE <<[s |-> "end", k |-> k, ok |-> IF env[k].fin = "ok" THEN 1 ELSE 0]>>
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE <<First(S)>> \o SetToSeqOf(S \ {First(S)})
Rd(fd) == sk[fd].r = 1 /\ sk[fd].n > 0 /\ ~sk[fd].broken
Wr(fd) == sk[fd].w = 1 /\ sk[fd].out /\ ~sk[fd].broken
Late == {k \in Waiting : lq[k].dl <= now}
Work(h) ==
  CASE h.s = "ask" -> /\ Asked(h.k, 1, "n", 4) /\ env' = With(env, h.k, [left |-> h.p.tries, tries |-> h.p.tries, hops |-> h.p.hops, fin |-> h.p.fin])
                      /\ Then(IF h.p.now THEN <<[s |-> "end", k |-> h.k, ok |-> IF h.p.fin = "ok" THEN 1 ELSE 0]>> ELSE <<[s |-> "send", k |-> h.k, tcp |-> FALSE]>>)
                      /\ UNCHANGED <<msgs, arm, gone>>
    [] h.s = "send" -> IF h.tcp \/ Udp = {}
                       THEN LET fd == Free IN
                            /\ Told(fd, 1, IF h.tcp THEN 1 ELSE 0) /\ msgs' = With(msgs, fd, [tcp |-> h.tcp, q |-> <<>>])
                            /\ Then((IF arm THEN <<[s |-> "fault"]>> ELSE <<>>) \o <<[s |-> "on", k |-> h.k, fd |-> fd]>>) /\ arm' = FALSE /\ UNCHANGED <<env, gone>>
                       ELSE Sent(h.k, First(Udp), now + Wait(h.k)) /\ Then(<<>>) /\ Same4
    [] h.s = "on" -> Sent(h.k, h.fd, now + Wait(h.k)) /\ Then(<<>>) /\ Same4
    [] h.s = "fault" -> Fault /\ Then(<<>>) /\ Same4
    [] h.s = "hop" -> /\ env' = [env EXCEPT ![h.k].hops = @ - 1, ![h.k].left = env[h.k].tries] /\ Then(<<[s |-> "send", k |-> h.k, tcp |-> h.tcp]>>)
                      /\ UNCHANGED <<hvars, msgs, arm, gone>>
    [] h.s = "retry" -> /\ env' = [env EXCEPT ![h.k].left = @ - 1]
                        /\ Then(IF env[h.k].left > 1 THEN <<[s |-> "send", k |-> h.k, tcp |-> h.tcp]>> ELSE <<[s |-> "end", k |-> h.k, ok |-> 0]>>)
                        /\ UNCHANGED <<hvars, msgs, arm, gone>>
    [] h.s = "end" -> Ends(h.k, h.ok, IF h.ok = 1 THEN L(env[h.k].fin) ELSE <<>>) /\ Then(<<[s |-> "call", q |-> lq[h.k].q]>>) /\ Same4
    [] h.s = "call" -> LET e == lq[rq[h.q].k] IN Called(h.q, 1 - e.ok, e.l, 1) /\ Then(<<>>) /\ Same4
    [] h.s = "close" -> /\ Told(h.fd, 0, 0) /\ msgs' = Less(msgs, h.fd) /\ Then(<<>>) /\ UNCHANGED <<env, arm, gone>>
    [] h.s = "read" -> LET fd == h.fd IN
         /\ Reads(fd)
         /\ LET ms == msgs[fd].q
                br == \E i \in 1..Len(ms) : ms[i][2] = "e"
            IN /\ Then(IF br THEN <<[s |-> "close", fd |-> fd]>> \o [i \in 1..Cardinality({k \in Waiting : lq[k].fd = fd}) |->
                                      [s |-> "retry", k |-> SetToSeqOf({k \in Waiting : lq[k].fd = fd})[i], tcp |-> msgs[fd].tcp]]
                       ELSE React(fd, ms[1]))
               /\ msgs' = [msgs EXCEPT ![fd].q = <<>>]
         /\ UNCHANGED <<env, arm, gone>>
    [] h.s = "kill" -> rs' = [rs EXCEPT ![1] = "gone"] /\ (\A i \in 1..Len(rq) : rq[i].st = "done") /\ UNCHANGED <<now, own, rq, lq, sk, last>> /\ Then(<<>>) /\ Same4
Ready == {fd \in DOMAIN sk : Rd(fd)}
Ready2 == {fd \in DOMAIN sk : Wr(fd)}
MNext ==
  IF todo # <<>> THEN Work(todo[1]) /\ I
  ELSE IF Ready2 # {} THEN \* a stream connected: written, then only read
    LET fd == First(Ready2) IN /\ sk' = [sk EXCEPT ![fd].out = FALSE, ![fd].w = 0] /\ UNCHANGED <<now, rs, own, rq, lq, last>> /\ UNCHANGED <<todo, env, msgs, arm, gone>> /\ I
  ELSE IF Ready # {} THEN todo' = <<[s |-> "read", fd |-> First(Ready)]>> /\ UNCHANGED <<hvars, env, msgs, arm, gone>> /\ I
  ELSE IF Late # {} /\ Tells THEN todo' = <<[s |-> "retry", k |-> First(Late), tcp |-> msgs[lq[First(Late)].fd].tcp]>> /\ UNCHANGED <<hvars, env, msgs, arm, gone>> /\ I
  ELSE IF Unused # {} THEN todo' = <<[s |-> "close", fd |-> First(Unused)]>> /\ UNCHANGED <<hvars, env, msgs, arm, gone>> /\ I
  ELSE ~gone /\
       \/ /\ Len(rq) < MaxQ
          /\ \E p \in Plans : /\ Resolve(1, "n", 4, 0) /\ todo' = <<[s |-> "ask", k |-> Len(rq) + 1, p |-> p]>> /\ A([op |-> "R", p |-> p])
                              /\ Same4
       \/ \E k \in Waiting, x \in Kinds :
            LET fd == lq[k].fd IN
            /\ ~(msgs[fd].tcp /\ (sk[fd].w = 1)) /\ Len(msgs[fd].q) = 0
            /\ Arrives(fd) /\ msgs' = [msgs EXCEPT ![fd].q = Append(@, <<k, x>>)]
            /\ UNCHANGED <<todo, env, arm, gone>> /\ A([op |-> "A", k |-> k, x |-> x])
       \/ \E k \in Waiting : LET fd == lq[k].fd IN
            /\ msgs[fd].tcp /\ sk[fd].w = 1 /\ ~sk[fd].out
            /\ Connects(fd) /\ UNCHANGED <<todo, env, msgs, arm, gone>> /\ A([op |-> "A", k |-> k, x |-> "c"])
       \/ /\ Waiting # {} /\ now < MaxNow
          /\ IF Tells THEN Pass(now + 1) ELSE now' = now + 1 /\ UNCHANGED <<rs, own, rq, lq, sk, last>>
          /\ UNCHANGED <<todo, env, msgs, arm, gone>> /\ A([op |-> "adv"])
       \/ Faults /\ ~arm /\ arm' = TRUE /\ UNCHANGED <<hvars, todo, env, msgs, gone>> /\ A([op |-> "F"])
       \/ /\ gone' = TRUE /\ A([op |-> "D"])
          /\ todo' = [i \in 1..Cardinality(Waiting) |-> [s |-> "end", k |-> SetToSeqOf(Waiting)[i], ok |-> 0]]
                      \o [i \in 1..Cardinality(DOMAIN sk) |-> [s |-> "close", fd |-> SetToSeqOf(DOMAIN sk)[i]]] \o <<[s |-> "kill"]>>
          /\ UNCHANGED <<hvars, env, msgs, arm>>
MSpec == MInit /\ [][MNext]_mvars
Idle == todo = <<>> /\ Ready = {} /\ Ready2 = {} /\ (Late = {} \/ ~Tells) /\ Unused = {}
\* whatever happens on the sockets, a question has ended once its queries ran out of time
InvEnds == Idle => \A k \in Waiting : lq[k].dl >= now
InvBound == \A k \in Waiting : lq[k].dl <= now + 2 * T
InvQuiet == Idle => Quiet
InvGone == Idle /\ gone => Live = {} /\ (\A i \in 1..Len(rq) : rq[i].st = "done") /\ sk = Empty
InvOpen == Idle => \A fd \in DOMAIN sk : Used(fd)
V == <<now, [i \in 1..Len(rq) |-> IF rq[i].st = "asked" THEN <<lq[rq[i].k].st, lq[rq[i].k].dl, lq[rq[i].k].fd, env[rq[i].k]>> ELSE <<rq[i].st, IF rq[i].st = "ended" THEN lq[rq[i].k].ok ELSE 0>>],
       {<<fd, sk[fd], msgs[fd]>> : fd \in DOMAIN sk}, todo, arm, gone, IF todo = <<>> THEN 0 ELSE last>>
VJ == V
MEmit == PrintT("T" \o ToJson([f |-> VJ, a |-> act', t |-> VJ']))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(VJ)) ELSE TRUE
MView == V
===============================================================================

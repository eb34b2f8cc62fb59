---------------------------- MODULE ResolverTrace ----------------------------
EXTENDS Resolver, TraceKit
VARIABLES tid, l, opt, made, mgr
\* opt: options the resolver in the making was given; made: [n channels made for it, last of them, whether something failed]
tvars == <<hvars, tid, l, opt, made, mgr>>
None == [n |-> 0, c |-> 0, failed |-> FALSE]
TInit == tid \in 1..NTraces /\ l = 1 /\ HInit /\ opt = <<>> /\ made = None /\ mgr = FALSE
Same == UNCHANGED hvars
Keep == UNCHANGED <<opt, made, mgr>>
As(e, o) == /\ e.udp = o.port /\ e.tcp = o.port /\ e.to = (IF o.to = 0 THEN -1 ELSE o.to) /\ e.srv = o.srv
Range2(s) == {s[i] : i \in 1..Len(s)}
Step(e) ==
  \/ e.e = "new" /\ opt' = [port |-> e.port, to |-> e.to, srv |-> e.srv] /\ made' = None /\ mgr' = mgr /\ Same
  \/ /\ e.e = "init" /\ As(e, opt)
     /\ made' = IF e.ok = 1 THEN [made EXCEPT !.n = @ + 1, !.c = e.c] ELSE [made EXCEPT !.failed = TRUE]
     /\ UNCHANGED <<opt, mgr>>
     /\ own' = (IF e.ok = 1 THEN With(own, e.c, 0) ELSE own) /\ UNCHANGED <<now, rs, rq, lq, sk, last>>
  \/ e.e = "fault" /\ Fault /\ made' = [made EXCEPT !.failed = TRUE] /\ UNCHANGED <<opt, mgr>>
  \/ /\ e.e = "made" /\ Keep
     /\ IF e.ok = 1 THEN made.n = 1 /\ Made(e.r, made.c) ELSE made.failed /\ Same
  \/ /\ e.e = "manager" /\ UNCHANGED <<opt, made>> /\ mgr' = TRUE
     /\ IF e.ok = 1 THEN Made(0, 0) ELSE made.failed /\ Same
  \/ e.e = "resolve" /\ Resolve(e.r, e.name, e.f, e.stop) /\ Keep
  \/ e.e = "asked" /\ (IF mgr THEN AskedUnseen(e.k, e.c) ELSE Asked(e.k, e.c, e.name, e.f)) /\ Keep
  \/ e.e = "send" /\ Sent(e.k, e.fd, e.dl) /\ Keep
  \/ e.e = "sock" /\ Told(e.fd, e.r, e.w) /\ Keep
  \/ e.e = "arr" /\ Arrives(e.fd) /\ Keep
  \/ e.e = "conn" /\ Connects(e.fd) /\ Keep
  \/ e.e = "read" /\ Reads(e.fd) /\ Keep
  \/ e.e = "sent" /\ Flushes(e.fd) /\ Keep
  \/ e.e = "end" /\ Ends(e.k, e.ok, e.l) /\ Keep
  \/ e.e = "cb" /\ Called(e.q, e.err, e.l, e.all) /\ Keep
  \/ e.e = "now" /\ Pass(e.t) /\ Keep
  \/ /\ e.e = "rest" /\ Rest(Range2(e.ev)) /\ e.bad = 0 /\ Same /\ Keep
     /\ (~mgr => e.chan = Cardinality(Live))
  \/ e.e = "destroy" /\ e.r \in Live /\ Same /\ Keep
  \/ e.e = "gone" /\ Gone(e.r) /\ Keep
  \/ /\ e.e = "end_of_all" /\ Live = {} /\ e.events = 0 /\ e.once = 0 /\ e.bases = 0 /\ e.chan = 0 /\ e.bad = 0
     /\ (\A k \in DOMAIN lq : lq[k].st = "ended") /\ sk = Empty /\ Same /\ Keep
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

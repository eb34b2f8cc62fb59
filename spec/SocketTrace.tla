----------------------------- MODULE SocketTrace -----------------------------
(* Socket objects (C34), validated on recorded operations and the kernel calls   *)
(* they made.                                                                    *)
EXTENDS Sockets, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1 /\ own = <<>> /\ open = {}

\* the kernel's view: every call names an open descriptor, closing included
RECURSIVE After(_, _)
After(cur, c) ==
  IF c = <<>> THEN cur
  ELSE LET k == c[1] IN
       CASE k.k = "socket" -> After(IF k.r = -1 THEN cur ELSE cur \cup {k.r}, Tail(c))
         [] k.k = "close"  -> IF k.fd \in cur /\ k.ok = 1 THEN After(cur \ {k.fd}, Tail(c)) ELSE {-2}
         [] k.k = "bad"    -> {-2}
         [] OTHER          -> IF k.fd \in cur THEN After(cur, Tail(c)) ELSE {-2}
Of(e, kind) == SelectSeq(e.c, LAMBDA k : k.k = kind)
Failed(k) == CASE k.k = "socket" -> k.r = -1
               [] k.k = "nb" -> k.ok = 0
               [] k.k = "opt" -> k.ok = 0
               [] k.k = "conn" -> k.err \notin {0, 115, 11}     \* in progress is not a failure
               [] OTHER -> FALSE
AnyFailed(e) == \E i \in 1..Len(e.c) : Failed(e.c[i])
\* one descriptor asked for, of the right kind
Asked(e, fam, type) == LET q == Of(e, "socket") IN Len(q) = 1 /\ q[1].fam = fam /\ q[1].type = type /\ q[1].p = 0
New(e) == Of(e, "socket")[1].r
Thrown(e) == e.th = 1 /\ e.msg = 1 /\ Nothing
\* a connecting socket is non-blocking before it connects, and connects to what was asked, once
Connecting(e) ==
  LET q == Of(e, "conn") IN
  /\ Asked(e, e.fam, 1)
  /\ Len(q) <= 1
  /\ \A i \in 1..Len(q) : q[i].nb = 1 /\ q[i].fam = e.fam /\ q[i].sf = e.fam /\ q[i].port = e.port /\ q[i].b = e.b
  /\ ~AnyFailed(e) => Len(q) = 1
  /\ \A i \in 1..Len(e.c) : e.c[i].k = "nb" => e.c[i].kept = 1
Do(e) ==
  CASE e.e \in {"new", "new2"} -> /\ Asked(e, e.fam, e.type)
                                  /\ IF AnyFailed(e) THEN Thrown(e) ELSE e.th = 0 /\ Create(e.t, New(e))
    [] e.e = "adopt" -> Adopt(e.t, e.ad) /\ e.th = 0
    [] e.e = "mc" -> MoveInto(e.t, e.s) /\ e.th = 0
    [] e.e = "ma" -> Assign(e.t, e.s) /\ e.th = 0
    [] e.e = "sw" -> Swap(e.t, e.s) /\ e.th = 0
    [] e.e = "del" -> Destroy(e.t) /\ e.th = 0
    [] e.e = "CC" -> Connecting(e) /\ IF AnyFailed(e) THEN Thrown(e) ELSE e.th = 0 /\ Create(e.t, New(e))
    [] e.e = "CA" -> Connecting(e) /\ IF AnyFailed(e) THEN Thrown(e) ELSE e.th = 0 /\ Overwrite(e.t, New(e))
    [] e.e = "nb" -> /\ LET q == Of(e, "nb") IN Len(q) = 1 /\ q[1].fd = own[e.t] /\ q[1].on = 1 /\ q[1].kept = 1
                     /\ IF AnyFailed(e) THEN Thrown(e) ELSE e.th = 0 /\ Nothing
    [] e.e = "ra" -> /\ LET q == Of(e, "opt") IN Len(q) = 1 /\ q[1].fd = own[e.t] /\ q[1].reuse = 1 /\ q[1].v # 0
                     /\ IF AnyFailed(e) THEN Thrown(e) ELSE e.th = 0 /\ Nothing
    [] e.e = "con" -> /\ LET q == Of(e, "conn") IN Len(q) = 1 /\ q[1].fd = own[e.t] /\ q[1].fam = 4 /\ q[1].port = e.port /\ q[1].b = e.b
                                                    /\ (q[1].err = 0) = (e.rc = 0)
                      /\ e.th = 0 /\ Nothing
    [] OTHER -> FALSE
Step(e) ==
  /\ Do(e)
  /\ open' = Held(own')
  /\ After(IF e.e = "adopt" /\ e.ad # -1 THEN open \cup {e.ad} ELSE open, e.c) = open'
  /\ Range(e.open) = open'
  /\ {<<x, own'[x]>> : x \in DOMAIN own'} = Range(e.own)
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<own, open, tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===============================================================================

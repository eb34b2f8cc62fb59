----------------------------- MODULE AutoRecorder -----------------------------
(* The recorder with a background reporting thread (C15, C16).  Every shared     *)
(* effect is one step; recording threads, flushers, the reporting thread and the *)
(* destroying thread interleave.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES pend,     \* waiting spans: <<id, time it came>>
          drops,    \* drops to be reported
          opt,      \* configured maximum now
          snap,     \* the maximum the recorder goes by
          exit,     \* the reporting thread has been told to stop
          why,      \* reasons to stop: subset of {"off", "throw", "dtor"}
          fl,       \* report being sent
          sent,     \* ids of the spans handed to the transport
          ret,      \* ids of the spans accepted by a call that has returned
          thr,      \* thread -> its call
          last,     \* when the transport last returned
          optat,    \* when the maximum was last changed
          fullat,   \* when the waiting spans reached the maximum
          base,     \* when the transport last returned from a report sent because no more could wait
          dead      \* -1 alive, when destruction began, -2 destroyed
avars == <<pend, drops, opt, snap, exit, why, fl, sent, ret, thr, last, optat, fullat, base, dead>>
NoFl == [st |-> "none", sp |-> <<>>, d |-> 0, ts |-> 0, td |-> 0, full |-> FALSE]
Idle == [op |-> "idle"]
AInit(m, now) == /\ pend = <<>> /\ drops = 0 /\ opt = m /\ snap = m /\ exit = FALSE /\ why = {} /\ fl = NoFl
                 /\ sent = {} /\ ret = {} /\ thr = [t \in {} |-> Idle] /\ last = now /\ dead = -1
                 /\ optat = now /\ fullat = -1 /\ base = now
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Th(t) == IF t \in DOMAIN thr THEN thr[t] ELSE Idle
In(t, op) == Th(t).op = op
Max2(a, b) == IF a > b THEN a ELSE b
Ids(s) == {s[i][1] : i \in DOMAIN s}
IdSeq(s) == [i \in DOMAIN s |-> s[i][1]]

\* ---- recording
RecordCall(t, id, now) == /\ Th(t) = Idle /\ dead # -2 /\ thr' = Put(thr, t, [op |-> "rec", id |-> id, at |-> now, pc |-> "start", told |-> 0])
                          /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, ret, last, dead, optat, fullat, base>>
Accept(t) == /\ In(t, "rec") /\ Th(t).pc = "start" /\ ~exit /\ Len(pend) < snap
             /\ pend' = Append(pend, <<Th(t).id, Th(t).at>>) /\ thr' = [thr EXCEPT ![t].pc = "in"]
             /\ fullat' = IF Len(pend) + 1 >= snap /\ fullat < 0 THEN Th(t).at ELSE fullat
             /\ UNCHANGED <<drops, opt, snap, exit, why, fl, sent, ret, last, dead, optat, base>>
Reject(t) == /\ In(t, "rec") /\ Th(t).pc = "start" /\ (exit \/ Len(pend) >= snap)
             /\ drops' = drops + 1 /\ thr' = [thr EXCEPT ![t].pc = "out"]
             /\ UNCHANGED <<pend, opt, snap, exit, why, fl, sent, ret, last, dead, optat, fullat, base>>
TellDrop(t, n) == /\ In(t, "rec") /\ Th(t).pc \in {"start", "out"} /\ Th(t).told = 0 /\ n = 1
                  /\ thr' = [thr EXCEPT ![t].told = 1]
                  /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, ret, last, dead, optat, fullat, base>>
RecordReturn(t) == /\ In(t, "rec")
                   /\ \/ Th(t).pc = "in" /\ Th(t).told = 0 /\ ret' = ret \cup {Th(t).id}
                      \/ Th(t).pc = "out" /\ Th(t).told = 1 /\ ret' = ret
                   /\ thr' = Put(thr, t, Idle)
                   /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, last, dead, optat, fullat, base>>

\* ---- flushing
FlushCall(t, now, by) == /\ Th(t) = Idle /\ dead # -2 /\ thr' = Put(thr, t, [op |-> "flush", need |-> ret, at |-> now, by |-> by, pc |-> "on", told |-> 0])
                    /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, ret, last, dead, optat, fullat, base>>
FlushReturn(t, r, now, precise) ==
  /\ In(t, "flush")
  /\ r = 1 => Th(t).need \subseteq sent
  /\ r = 0 => (now >= Th(t).by \/ exit)
  /\ precise => now <= Th(t).by
  /\ (precise /\ r = 1) => now <= Max2(Th(t).at, last)
  /\ thr' = Put(thr, t, Idle)
  /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, ret, last, dead, optat, fullat, base>>

\* ---- the reporting thread
Resnap == fl.st = "none" /\ snap # opt /\ snap' = opt /\ UNCHANGED <<pend, drops, opt, exit, why, fl, sent, ret, thr, last, dead, optat, fullat, base>>
Take == /\ dead # -2 /\ fl.st = "none" /\ why \cap {"off", "throw"} = {} /\ pend # <<>>
        /\ fl' = [st |-> "taken", sp |-> pend, d |-> drops, ts |-> 0, td |-> 0, full |-> fullat >= 0 \/ Len(pend) >= snap]
        /\ pend' = <<>> /\ drops' = 0
        /\ UNCHANGED <<opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
TellSent(n) == /\ fl.st \in {"taken", "sending", "good", "bad"} /\ fl.ts = 0 /\ n = Len(fl.sp)
               /\ fl' = [fl EXCEPT !.ts = 1]
               /\ UNCHANGED <<pend, drops, opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
\* with precise time nothing waits longer than the reporting period or for the previous report to end; the period
\* begins again after a report that was sent because no more could wait
SendCall(ids, d, now, period, precise) ==
  /\ fl.st = "taken" /\ ids = IdSeq(fl.sp) /\ d = fl.d /\ dead # -2
  /\ precise => now <= Max2(Max2(fl.sp[1][2], base) + period, last)
  /\ (precise /\ fullat >= 0) => now <= Max2(fullat, last)      \* at once when no more may wait
  /\ fullat' = -1
  /\ fl' = [fl EXCEPT !.st = "sending"]
  /\ UNCHANGED <<pend, drops, opt, snap, exit, why, sent, ret, thr, last, dead, optat, base>>
SendReturn(a, now) ==
  /\ fl.st = "sending" /\ last' = now /\ base' = IF fl.full THEN now ELSE base
  /\ fl' = [fl EXCEPT !.st = CASE a \in {"ok", "off"} -> "good" [] a = "fail" -> "bad" [] OTHER -> "lost"]
  /\ sent' = IF a = "throw" THEN sent ELSE sent \cup Ids(fl.sp)
  /\ why' = IF a \in {"off", "throw"} THEN why \cup {a} ELSE why
  /\ UNCHANGED <<pend, drops, opt, snap, exit, ret, thr, dead, optat, fullat>>
TellFailed(n) == /\ fl.st = "bad" /\ fl.td = 0 /\ n = Len(fl.sp) /\ fl' = [fl EXCEPT !.td = 1]
                 /\ UNCHANGED <<pend, drops, opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
CountFailed == /\ fl.st = "bad" /\ drops' = drops + fl.d + Len(fl.sp) /\ fl' = [fl EXCEPT !.st = "counted"]
               /\ UNCHANGED <<pend, opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
TellCounted(n) == /\ fl.st = "counted" /\ fl.td = 0 /\ n = Len(fl.sp) /\ fl' = [fl EXCEPT !.td = 1]
                  /\ UNCHANGED <<pend, drops, opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
\* done with this report; a stop the collector asked for has happened by then
Finish == /\ fl.ts = 1
          /\ fl.st = "good" \/ (fl.st = "counted" /\ fl.td = 1)
          /\ ("off" \in why => exit)
          /\ fl' = NoFl
          /\ UNCHANGED <<pend, drops, opt, snap, exit, why, sent, ret, thr, last, dead, optat, fullat, base>>
Stop == /\ why # {} /\ ~exit /\ exit' = TRUE
        /\ UNCHANGED <<pend, drops, opt, snap, why, fl, sent, ret, thr, last, dead, optat, fullat, base>>

SetMax(m, now) == opt' = m /\ optat' = now /\ UNCHANGED <<pend, drops, snap, exit, why, fl, sent, ret, thr, last, dead, fullat, base>>
DtorCall(now) == /\ dead = -1 /\ dead' = now /\ (\A t \in DOMAIN thr : thr[t] = Idle) /\ why' = why \cup {"dtor"}
            /\ UNCHANGED <<pend, drops, opt, snap, exit, fl, sent, ret, thr, last, optat, fullat, base>>
\* at once, apart from a report that is being sent
DtorReturn(now, precise) ==
              /\ "dtor" \in why /\ exit /\ dead >= 0 /\ fl.st \in {"none", "lost"} /\ dead' = -2
              /\ precise => now <= Max2(dead, last)
              /\ UNCHANGED <<pend, drops, opt, snap, exit, why, fl, sent, ret, thr, last, optat, fullat, base>>
Hidden == \/ \E t \in DOMAIN thr : Accept(t) \/ Reject(t)
          \/ Resnap \/ Take \/ CountFailed \/ Finish \/ Stop
===============================================================================

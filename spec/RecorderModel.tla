---------------------------- MODULE RecorderModel ----------------------------
(* The streaming recorder's protocol (C17): threads that record, flush and shut   *)
(* down, the network thread's poll, and the destructor, at the grain of their     *)
(* shared accesses; the connections are one satellite that takes what it is       *)
(* given, takes part of it, or stalls.  Scripts are per thread: "r" record,       *)
(* "f" flush, "z" shut down.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Progs,      \* scripts of the threads
          Cap,        \* room for waiting spans
          Stalls,     \* may the satellite stop taking data
          Timeouts    \* may waiting end early
Threads == DOMAIN Progs
VARIABLES ip, pc, need,              \* threads: next operation, where in it, what a flush waits for
          prod, cons, seen, nseen,   \* spans recorded, consumed, consumed as published, as read by the poll
          pf, sc,                    \* flushes and shutdowns asked for
          fm, sm,                    \* holders of the two mutexes
          fw, sw,                    \* threads waiting on the condition variables
          open, shut, active,        \* connections, asked to finish, activity as published
          exit, net, got, dropped, ret
vars == <<ip, pc, need, prod, cons, seen, nseen, pf, sc, fm, sm, fw, sw, open, shut, active, exit, net, got, dropped, ret>>
Init == /\ ip = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "idle"] /\ need = [t \in Threads |-> 0]
        /\ prod = 0 /\ cons = 0 /\ seen = 0 /\ nseen = 0 /\ pf = 0 /\ sc = 0 /\ fm = 0 /\ sm = 0 /\ fw = {} /\ sw = {}
        /\ open = TRUE /\ shut = FALSE /\ active = TRUE /\ exit = FALSE /\ net = "sleep" /\ got = 0 /\ dropped = 0 /\ ret = {}
Op(t) == IF ip[t] <= Len(Progs[t]) THEN Progs[t][ip[t]] ELSE "-"
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Net == 99
U1 == <<prod, cons, seen, nseen>>
U2 == <<open, shut, active>>
U3 == <<exit, net, got>>
\* ---- recording: the buffer accepts or the span is dropped
Record(t) == /\ pc[t] = "idle" /\ Op(t) = "r" /\ ip' = [ip EXCEPT ![t] = @ + 1]
             /\ IF prod - cons < Cap THEN prod' = prod + 1 /\ dropped' = dropped ELSE prod' = prod /\ dropped' = dropped + 1
             /\ UNCHANGED <<pc, need, cons, seen, nseen, pf, sc, fm, sm, fw, sw, U2, U3, ret>>
\* ---- FlushWithTimeout
F0(t) == pc[t] = "idle" /\ Op(t) = "f" /\ need' = [need EXCEPT ![t] = prod] /\ Go(t, "f1")
         /\ UNCHANGED <<ip, U1, pf, sc, fm, sm, fw, sw, U2, U3, dropped, ret>>
F1(t) == pc[t] = "f1" /\ fm = 0 /\ fm' = t /\ Go(t, "f2") /\ UNCHANGED <<ip, need, U1, pf, sc, sm, fw, sw, U2, U3, dropped, ret>>
FDone(t, r) == /\ fm' = 0 /\ Go(t, "idle") /\ ip' = [ip EXCEPT ![t] = @ + 1]
               /\ ret' = ret \cup {<<"f", r, (r => cons >= need[t])>>}
               /\ UNCHANGED <<need, U1, sc, sm, sw, U2, U3, dropped>>
F2(t) == /\ pc[t] = "f2"
         /\ IF seen >= need[t] THEN FDone(t, TRUE) /\ UNCHANGED <<pf, fw>>
            ELSE pf' = pf + 1 /\ Go(t, "f3") /\ UNCHANGED <<ip, need, U1, sc, fm, sm, fw, sw, U2, U3, dropped, ret>>
\* waits with the predicate checked under the mutex
F3(t) == /\ pc[t] = "f3" /\ UNCHANGED pf
         /\ IF exit \/ seen >= need[t] THEN FDone(t, seen >= need[t]) /\ UNCHANGED fw
            ELSE fm' = 0 /\ fw' = fw \cup {t} /\ Go(t, "f4") /\ UNCHANGED <<ip, need, U1, sc, sm, sw, U2, U3, dropped, ret>>
F4(t) == /\ pc[t] = "f4" /\ t \notin fw /\ fm = 0 /\ fm' = t /\ Go(t, "f3")
         /\ UNCHANGED <<ip, need, U1, pf, sc, sm, fw, sw, U2, U3, dropped, ret>>
FTime(t) == /\ Timeouts /\ pc[t] = "f4" /\ fm = 0 /\ fw' = fw \ {t} /\ UNCHANGED pf
            /\ FDone(t, seen >= need[t])
\* ---- ShutdownWithTimeout
Z0(t) == pc[t] = "idle" /\ Op(t) = "z" /\ sm = 0 /\ sm' = t /\ Go(t, "z1")
         /\ UNCHANGED <<ip, need, U1, pf, sc, fm, fw, sw, U2, U3, dropped, ret>>
Z1(t) == pc[t] = "z1" /\ sc' = sc + 1 /\ Go(t, "z2") /\ UNCHANGED <<ip, need, U1, pf, fm, sm, fw, sw, U2, U3, dropped, ret>>
ZDone(t, r) == /\ sm' = 0 /\ Go(t, "idle") /\ ip' = [ip EXCEPT ![t] = @ + 1]
               /\ ret' = ret \cup {<<"z", r, (r => shut /\ ~open)>>}
               /\ UNCHANGED <<need, U1, pf, sc, fm, fw, U2, U3, dropped>>
Z2(t) == /\ pc[t] = "z2"
         /\ IF exit \/ ~active THEN ZDone(t, ~active) /\ UNCHANGED sw
            ELSE sm' = 0 /\ sw' = sw \cup {t} /\ Go(t, "z3") /\ UNCHANGED <<ip, need, U1, pf, sc, fm, fw, U2, U3, dropped, ret>>
Z3(t) == /\ pc[t] = "z3" /\ t \notin sw /\ sm = 0 /\ sm' = t /\ Go(t, "z2")
         /\ UNCHANGED <<ip, need, U1, pf, sc, fm, fw, sw, U2, U3, dropped, ret>>
ZTime(t) == Timeouts /\ pc[t] = "z3" /\ sm = 0 /\ sw' = sw \ {t} /\ ZDone(t, ~active)
User(t) == Record(t) \/ F0(t) \/ F1(t) \/ F2(t) \/ F3(t) \/ F4(t) \/ FTime(t) \/ Z0(t) \/ Z1(t) \/ Z2(t) \/ Z3(t) \/ ZTime(t)
\* ---- the network thread
N(l) == net' = l
UU == <<ip, pc, need, prod, dropped, ret>>
Write == IF open THEN cons' \in (IF Stalls THEN cons..prod ELSE {prod}) ELSE cons' = cons
\* the poll timer: the last one flushes and leaves
PollE == /\ net = "sleep"
         /\ IF exit THEN Write /\ N("gone") /\ open' = FALSE /\ got' = cons' /\ UNCHANGED pf
            ELSE /\ pf' = 0 /\ (IF pf > 0 \/ prod - cons > Cap \div 2 THEN Write ELSE cons' = cons) /\ N("n1") /\ UNCHANGED <<open, got>>
         /\ UNCHANGED <<UU, seen, nseen, sc, fm, sm, fw, sw, shut, active, exit>>
\* the flush timer, or a connection that can write again
Ready == /\ net = "sleep" /\ open /\ prod > cons /\ Write /\ UNCHANGED <<UU, seen, nseen, pf, sc, fm, sm, fw, sw, U2, exit, net, got>>
Close == /\ net = "sleep" /\ open /\ shut /\ open' = FALSE /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, fm, sm, fw, sw, shut, active, exit, net, got>>
N1 == net = "n1" /\ nseen' = cons /\ N("n2") /\ UNCHANGED <<UU, cons, seen, pf, sc, fm, sm, fw, sw, U2, exit, got>>
N2 == /\ net = "n2"
      /\ IF nseen > seen THEN fm = 0 /\ fm' = Net /\ N("n3") ELSE UNCHANGED fm /\ N("n5")
      /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, sm, fw, sw, U2, exit, got>>
N3 == net = "n3" /\ seen' = nseen /\ fm' = 0 /\ N("n4") /\ UNCHANGED <<UU, cons, nseen, pf, sc, sm, fw, sw, U2, exit, got>>
N4 == net = "n4" /\ fw' = {} /\ N("n5") /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, fm, sm, sw, U2, exit, got>>
N5 == net = "n5" /\ sc' = 0 /\ shut' = (shut \/ sc > 0) /\ N("n6") /\ UNCHANGED <<UU, cons, seen, nseen, pf, fm, sm, fw, sw, open, active, exit, got>>
N6 == /\ net = "n6"
      /\ IF active /\ ~open THEN sm = 0 /\ sm' = Net /\ N("n7") ELSE UNCHANGED sm /\ N("sleep")
      /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, fm, fw, sw, U2, exit, got>>
N7 == net = "n7" /\ active' = FALSE /\ sm' = 0 /\ N("n8") /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, fm, fw, sw, open, shut, exit, got>>
N8 == net = "n8" /\ sw' = {} /\ N("sleep") /\ UNCHANGED <<UU, cons, seen, nseen, pf, sc, fm, sm, fw, U2, exit, got>>
Network == PollE \/ N1 \/ N2 \/ N3 \/ N4 \/ N5 \/ N6 \/ N7 \/ N8
AllDone == \A t \in Threads : pc[t] = "idle" /\ Op(t) = "-"
\* the destructor, when nobody uses the recorder any more
Destroy == AllDone /\ ~exit /\ exit' = TRUE /\ UNCHANGED <<UU, U1, pf, sc, fm, sm, fw, sw, U2, net, got>>
Gone == net = "gone" /\ UNCHANGED vars
Next == (\E t \in Threads : User(t)) \/ Network \/ Ready \/ Close \/ Destroy \/ Gone
\* threads and the network go on; the satellite, when it does not stall, replies
Spec == Init /\ [][Next]_vars /\ (\A t \in Threads : WF_vars(User(t))) /\ WF_vars(Network) /\ SF_vars(Close) /\ WF_vars(Destroy)
\* ---- what is promised
Truth == \A r \in ret : r[3]
Bounds == /\ cons <= prod /\ prod - cons <= Cap /\ seen <= cons
Terminates == <>[](net = "gone")
\* without stalls, everything recorded and accepted has been written in the end, or came after the connections had closed
AllWritten == (net = "gone" /\ ~Stalls) => (got = prod \/ shut)
P1 == <<<<"r", "f">>, <<"r", "f">>>>
P2 == <<<<"r", "f", "z">>, <<"r", "z">>>>
P3 == <<<<"r", "r", "f">>, <<"z", "r", "f">>>>
P4 == <<<<"r", "f", "r", "f">>, <<"r", "r">>, <<"z">>>>
P6 == <<<<"r", "z">>, <<"z", "r">>>>
P7 == <<<<"r", "f", "r", "f">>, <<"r", "f">>, <<"f">>>>
P5 == <<<<"r", "f">>, <<"f", "r">>, <<"z", "z">>>>
===============================================================================

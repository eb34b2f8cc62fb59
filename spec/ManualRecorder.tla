---------------------------- MODULE ManualRecorder ----------------------------
(* The recorder with user-driven flushing (C13).  Spans wait in a bounded        *)
(* buffer; a flush takes all of them with the pending drop count into one        *)
(* report, which the transport later declares delivered or failed.  Every thread *)
(* has a stack of activations because the transport may call back into the       *)
(* recorder (flush when the buffer is full, answer a report while sending it).   *)
(* Each shared effect is one step; the steps of different threads interleave.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES cap,      \* capacity of the buffer
          buf,      \* waiting spans, oldest first
          added,    \* spans ever added
          freed,    \* spans whose room has been given back
          pend,     \* drops not yet carried by a report
          lock,     \* thread taking spans, or -1
          stack,    \* thread -> sequence of activations
          rep       \* report -> [sp, d, st]
mvars == <<cap, buf, added, freed, pend, lock, stack, rep>>

MInit(n) == /\ cap = n /\ buf = <<>> /\ added = 0 /\ freed = 0 /\ pend = 0 /\ lock = -1
            /\ stack = [t \in {} |-> <<>>] /\ rep = [q \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Stack(t) == IF t \in DOMAIN stack THEN stack[t] ELSE <<>>
Top(t) == Stack(t)[Len(Stack(t))]
In(t, op) == Stack(t) # <<>> /\ Top(t).op = op
Push(t, fr) == stack' = Put(stack, t, Append(Stack(t), fr))
SetTop(t, fr) == stack' = Put(stack, t, [Stack(t) EXCEPT ![Len(Stack(t))] = fr])
Pop(t) == stack' = Put(stack, t, SubSeq(Stack(t), 1, Len(Stack(t)) - 1))

\* ---- recording a span
RecordCall(t, id) == /\ Push(t, [op |-> "rec", id |-> id, pc |-> "try1", since |-> freed, told |-> 0])
                     /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
Enqueue(t) == /\ In(t, "rec") /\ Top(t).pc \in {"try1", "try2"}
              /\ added - freed < cap
              /\ buf' = Append(buf, Top(t).id) /\ added' = added + 1
              /\ SetTop(t, [Top(t) EXCEPT !.pc = "done"])
              /\ UNCHANGED <<cap, freed, pend, lock, rep>>
\* the room seen is that at some time since the attempt began
Refuse(t) == /\ In(t, "rec") /\ Top(t).pc \in {"try1", "try2"}
             /\ added - Top(t).since >= cap
             /\ SetTop(t, [Top(t) EXCEPT !.pc = IF @ = "try1" THEN "full" ELSE "drop"])
             /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
FullCall(t) == /\ In(t, "rec") /\ Top(t).pc = "full" /\ SetTop(t, [Top(t) EXCEPT !.pc = "asking"])
               /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
FullReturn(t) == /\ In(t, "rec") /\ Top(t).pc = "asking" /\ SetTop(t, [Top(t) EXCEPT !.pc = "try2", !.since = freed])
                 /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
CountDrop(t) == /\ In(t, "rec") /\ Top(t).pc = "drop" /\ pend' = pend + 1
                /\ SetTop(t, [Top(t) EXCEPT !.pc = "dropped"])
                /\ UNCHANGED <<cap, buf, added, freed, lock, rep>>
TellDrop(t, n) == /\ In(t, "rec") /\ Top(t).pc \in {"drop", "dropped"} /\ Top(t).told = 0 /\ n = 1
                  /\ SetTop(t, [Top(t) EXCEPT !.told = 1])
                  /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
RecordReturn(t) == /\ In(t, "rec") /\ Top(t).pc = IF Top(t).told = 1 THEN "dropped" ELSE "done"
                   /\ Pop(t) /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>

\* ---- flushing: drops and spans are taken in either order, spans exclusively
FlushCall(t) == /\ Push(t, [op |-> "flush", d |-> -1, sp |-> <<>>, pc |-> "take", told |-> 0, q |-> -1])
                /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
TakeDrops(t) == /\ In(t, "flush") /\ Top(t).d = -1 /\ Top(t).pc \in {"take", "taken"}
                /\ SetTop(t, [Top(t) EXCEPT !.d = pend]) /\ pend' = 0
                /\ UNCHANGED <<cap, buf, added, freed, lock, rep>>
TakeSpans(t) == /\ In(t, "flush") /\ Top(t).pc = "take" /\ lock = -1
                /\ SetTop(t, [Top(t) EXCEPT !.sp = buf, !.pc = "free"]) /\ buf' = <<>> /\ lock' = t
                /\ UNCHANGED <<cap, added, freed, pend, rep>>
FreeRoom(t) == /\ In(t, "flush") /\ Top(t).pc = "free"
               /\ SetTop(t, [Top(t) EXCEPT !.pc = "taken"]) /\ freed' = freed + Len(Top(t).sp) /\ lock' = -1
               /\ UNCHANGED <<cap, buf, added, pend, rep>>
Nothing(f) == f.d = 0 /\ f.sp = <<>>
SendCall(t, q, sp, d) ==
  /\ In(t, "flush") /\ Top(t).pc = "taken" /\ Top(t).d >= 0 /\ ~Nothing(Top(t))
  /\ sp = Top(t).sp /\ d = Top(t).d /\ q \notin DOMAIN rep
  /\ rep' = Put(rep, q, [sp |-> sp, d |-> d, st |-> "held"])
  /\ SetTop(t, [Top(t) EXCEPT !.pc = "sending", !.q = q])
  /\ UNCHANGED <<cap, buf, added, freed, pend, lock>>
SendReturn(t) == /\ In(t, "flush") /\ Top(t).pc = "sending" /\ SetTop(t, [Top(t) EXCEPT !.pc = "sent"])
                 /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
TellFlush(t) == /\ In(t, "flush") /\ Top(t).told = 0 /\ Top(t).pc \in {"taken", "sent"}
                /\ SetTop(t, [Top(t) EXCEPT !.told = 1])
                /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
FlushReturn(t, r) == /\ In(t, "flush") /\ r = 1
                     /\ \/ Top(t).pc = "sent" /\ Top(t).told = 1
                        \/ Top(t).pc = "taken" /\ Nothing(Top(t)) /\ Top(t).told = 0
                     /\ Pop(t) /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>

\* ---- the transport's answer
AnswerCall(t, q, ok) ==
  /\ q \in DOMAIN rep /\ rep[q].st = "held"
  /\ rep' = [rep EXCEPT ![q].st = IF ok = 1 THEN "delivered" ELSE "failing"]
  /\ Push(t, [op |-> "answer", q |-> q, ok |-> ok, pc |-> IF ok = 1 THEN "done" ELSE "count", told |-> 0])
  /\ UNCHANGED <<cap, buf, added, freed, pend, lock>>
CountFailed(t) ==
  /\ In(t, "answer") /\ Top(t).pc = "count" /\ Len(rep[Top(t).q].sp) > 0
  /\ pend' = pend + Len(rep[Top(t).q].sp)
  /\ SetTop(t, [Top(t) EXCEPT !.pc = "carry"])
  /\ rep' = [rep EXCEPT ![Top(t).q].sp = <<>>]
  /\ UNCHANGED <<cap, buf, added, freed, lock>>
CarryBack(t) ==
  /\ In(t, "answer") /\ Top(t).pc \in {"count", "carry"} /\ (Top(t).pc = "count" => rep[Top(t).q].sp = <<>>)
  /\ pend' = pend + rep[Top(t).q].d
  /\ rep' = [rep EXCEPT ![Top(t).q].st = "failed", ![Top(t).q].d = 0]
  /\ SetTop(t, [Top(t) EXCEPT !.pc = "done"])
  /\ UNCHANGED <<cap, buf, added, freed, lock>>
\* n: number of spans the report was sent with
TellAnswer(t, k, n, ns) ==
  /\ In(t, "answer") /\ Top(t).told = 0
  /\ k = IF Top(t).ok = 1 THEN "sent" ELSE "dropped"
  /\ n = ns
  /\ SetTop(t, [Top(t) EXCEPT !.told = 1])
  /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>
AnswerReturn(t, ns) == /\ In(t, "answer") /\ Top(t).pc = "done" /\ (Top(t).told = 1 \/ ns = 0)
                       /\ Pop(t) /\ UNCHANGED <<cap, buf, added, freed, pend, lock, rep>>

\* ---- in a forked child nothing recorded before counts any more
Forked == /\ (\A t \in DOMAIN stack : stack[t] = <<>>)
          /\ buf' = <<>> /\ freed' = added /\ pend' = 0
          /\ UNCHANGED <<cap, added, lock, stack, rep>>

Hidden(t) == \/ Enqueue(t) \/ Refuse(t) \/ CountDrop(t) \/ TakeDrops(t) \/ TakeSpans(t) \/ FreeRoom(t)
             \/ CountFailed(t) \/ CarryBack(t)
===============================================================================

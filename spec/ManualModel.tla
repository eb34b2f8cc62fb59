----------------------------- MODULE ManualModel -----------------------------
(* All interleavings of a few recording, flushing and answering threads (C13):  *)
(* every span is in one place and every drop is counted in one place.           *)
EXTENDS ManualRecorder, TLC
CONSTANTS Threads, MaxSpans, MaxReports, MaxFlushes, Cap
VARIABLES nspan, nrep, nflush, lost, flushfull
vars == <<mvars, nspan, nrep, nflush, lost, flushfull>>
Init == MInit(Cap) /\ nspan = 0 /\ nrep = 0 /\ nflush = 0 /\ lost = {} /\ flushfull \in BOOLEAN
Same == UNCHANGED <<nspan, nrep, nflush, lost, flushfull>>
Rec(t) == Stack(t) = <<>> /\ nspan < MaxSpans /\ RecordCall(t, nspan + 1) /\ nspan' = nspan + 1 /\ UNCHANGED <<nrep, nflush, lost, flushfull>>
Fl(t) == (Stack(t) = <<>> \/ (flushfull /\ In(t, "rec") /\ Top(t).pc = "asking" /\ Top(t).told = 0)) /\ nflush < MaxFlushes
         /\ FlushCall(t) /\ nflush' = nflush + 1 /\ UNCHANGED <<nspan, nrep, lost, flushfull>>
Snd(t) == nrep < MaxReports /\ In(t, "flush") /\ SendCall(t, nrep + 1, Top(t).sp, Top(t).d) /\ nrep' = nrep + 1 /\ UNCHANGED <<nspan, nflush, lost, flushfull>>
\* the drop counter stands for these spans
Cnt(t) == CountDrop(t) /\ lost' = lost \cup {Top(t).id} /\ UNCHANGED <<nspan, nrep, nflush, flushfull>>
CntF(t) == CountFailed(t) /\ lost' = lost \cup {rep[Top(t).q].sp[i] : i \in DOMAIN rep[Top(t).q].sp} /\ UNCHANGED <<nspan, nrep, nflush, flushfull>>
Ans(t) == (Stack(t) = <<>> \/ (In(t, "flush") /\ Top(t).pc = "sending")) /\ \E q \in DOMAIN rep, ok \in {0, 1} : AnswerCall(t, q, ok) /\ Same
Other(t) == /\ \/ Enqueue(t) \/ Refuse(t) \/ TakeDrops(t) \/ TakeSpans(t) \/ FreeRoom(t) \/ CarryBack(t)
               \/ FullCall(t) \/ FullReturn(t) \/ TellDrop(t, 1) \/ RecordReturn(t) \/ SendReturn(t) \/ TellFlush(t) \/ FlushReturn(t, 1)
               \/ AnswerReturn(t, 0)
            /\ Same
Next == \E t \in Threads : Rec(t) \/ Fl(t) \/ Snd(t) \/ Cnt(t) \/ CntF(t) \/ Ans(t) \/ Other(t)
Spec == Init /\ [][Next]_vars

\* where each span is
Sq(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Frames == {<<t, i>> : t \in Threads, i \in 1..3} \cap {<<t, i>> : t \in DOMAIN stack, i \in 1..3}
Fr(x) == IF x[2] <= Len(stack[x[1]]) THEN stack[x[1]][x[2]] ELSE [op |-> "none"]
Recording == {Fr(x).id : x \in {y \in Frames : Fr(y).op = "rec" /\ Fr(y).pc \notin {"done", "dropped"}}}
Taken == {x \in Frames : Fr(x).op = "flush" /\ Fr(x).pc \in {"free", "taken"}}
Places == [k \in {"buf", "lost", "rec"} |-> CASE k = "buf" -> Sq(buf) [] k = "lost" -> lost [] k = "rec" -> Recording]
Everything == Sq(buf) \cup lost \cup Recording \cup UNION {Sq(Fr(x).sp) : x \in Taken} \cup UNION {Sq(rep[q].sp) : q \in DOMAIN rep}
Total == Len(buf) + Cardinality(lost) + Cardinality(Recording)
         + SumF([x \in Taken |-> Len(Fr(x).sp)], Taken) + SumF([q \in DOMAIN rep |-> Len(rep[q].sp)], DOMAIN rep)
ExactlyOnce == Everything = 1..nspan /\ Total = nspan
\* every drop is pending or carried by one report, delivered or not
Carrying == {x \in Frames : Fr(x).op = "flush" /\ Fr(x).pc \in {"take", "free", "taken"} /\ Fr(x).d > 0}
DropsCounted == pend + SumF([x \in Carrying |-> Fr(x).d], Carrying) + SumF([q \in DOMAIN rep |-> rep[q].d], DOMAIN rep) = Cardinality(lost)
Bounded == Len(buf) <= cap /\ added - freed <= cap
===============================================================================

------------------------------ MODULE AutoModel ------------------------------
(* Every interleaving of a few recording threads, a flusher, the reporting      *)
(* thread and the destructor (C15, C16).                                        *)
EXTENDS AutoRecorder, TLC
CONSTANTS Threads, MaxSpans, Caps, MaxFlushes
VARIABLES n, lost, nf, lied
vars == <<avars, n, lost, nf, lied>>
Init == \E m \in Caps : AInit(m, 0) /\ n = 0 /\ lost = 0 /\ nf = 0 /\ lied = FALSE
Same == UNCHANGED <<n, lost, nf, lied>>
Step == \/ \E t \in Threads :
             \/ n < MaxSpans /\ "dtor" \notin why /\ RecordCall(t, n + 1, 0) /\ n' = n + 1 /\ UNCHANGED <<lost, nf, lied>>
             \/ (Accept(t) \/ TellDrop(t, 1) \/ RecordReturn(t)) /\ Same
             \/ Reject(t) /\ lost' = lost + 1 /\ UNCHANGED <<n, nf, lied>>
             \/ nf < MaxFlushes /\ "dtor" \notin why /\ FlushCall(t, 0, 1) /\ nf' = nf + 1 /\ UNCHANGED <<n, lost, lied>>
             \/ FlushReturn(t, 1, 0, FALSE) /\ lied' = (lied \/ ~(thr[t].need \subseteq sent)) /\ UNCHANGED <<n, lost, nf>>
             \/ FlushReturn(t, 0, 1, FALSE) /\ Same
        \/ (Resnap \/ Take \/ Stop \/ Finish \/ TellSent(Len(fl.sp)) \/ TellFailed(Len(fl.sp)) \/ TellCounted(Len(fl.sp))) /\ Same
        \/ CountFailed /\ lost' = lost + Len(fl.sp) /\ UNCHANGED <<n, nf, lied>>
        \/ SendCall(IdSeq(fl.sp), fl.d, 0, 1, FALSE) /\ Same
        \/ \E a \in {"ok", "off", "fail", "throw"} : SendReturn(a, 0) /\ Same
        \/ \E m \in Caps : opt # m /\ SetMax(m, 0) /\ Same
        \/ (DtorReturn(0, FALSE) \/ ("dtor" \notin why /\ DtorCall(0))) /\ Same
Next == Step
Spec == Init /\ [][Next]_vars
\* every accepted span waits, is being sent or has been sent; none is in two places
Waiting == Ids(pend)
Flying == IF fl.st \in {"taken", "sending"} THEN Ids(fl.sp) ELSE {}
Distinct == Cardinality(Waiting) = Len(pend) /\ Waiting \cap Flying = {} /\ Waiting \cap sent = {} /\ Flying \cap sent = {}
NothingLost == \A i \in ret : i \in Waiting \cup Flying \cup sent \cup (IF fl.st = "lost" THEN Ids(fl.sp) ELSE {})
Bound == Len(pend) <= (CHOOSE m \in Caps : \A k \in Caps : k <= m)
Silence == dead = -2 => fl.st \in {"none", "lost"}
Truth == ~lied
===============================================================================

----------------------------- MODULE ReportModel -----------------------------
(* Reports of a few small spans (C12): every way to build one and look at it.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
R == INSTANCE Report
CONSTANTS MaxSpans
Shapes == {0, 1, 256, 300}        \* bytes of a span; blocks hold 256
Drops == {0, 1, 130}
VARIABLES q, next, looked, act
vars == <<q, next, looked, act>>
Init == \E d \in Drops : q = R!New(0, 3, d, 20) /\ next = 3 /\ looked = 0 /\ act = [op |-> "new", d |-> d]
AddSpan(n) == /\ Len(q.sp) < MaxSpans
              /\ q' = R!Add(q, IF n = 0 THEN <<>> ELSE <<<<next, n>>>>)
              /\ next' = next + n + 1
              /\ looked' = 0
              /\ act' = [op |-> "add", n |-> n]
\* looking changes nothing
Look(k) == looked < 2 /\ looked' = looked + 1 /\ UNCHANGED <<q, next>> /\ act' = [op |-> "look", k |-> k]
CopyOut(x) == looked < 2 /\ looked' = looked + 1 /\ UNCHANGED <<q, next>> /\ act' = [op |-> "copy", x |-> x]
MSpec == Init /\ [][(\E n \in Shapes : AddSpan(n)) \/ (\E k \in 0..4 : Look(k)) \/ (\E x \in {0, 3} : CopyOut(x))]_vars
\* each span is in the report once, in order, and nothing else is
HeaderFirst == R!Bytes(q)[1][1] = 0
RECURSIVE Ascending(_)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i + 1][1] = -1 \/ s[i][1] < s[i + 1][1]
InOrder == Ascending(R!Bytes(q))
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Total(Tail(r))
Sized == Total(R!Bytes(q)) = (next - 3 - Len(q.sp)) + 3 + (IF q.d > 0 THEN 20 ELSE 0)
MView == <<q, next, looked>>
MEmit == PrintT("T" \o ToJson([f |-> <<q, next, looked>>, a |-> act', t |-> <<q', next', looked'>>]))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(<<q, next, looked>>))
===============================================================================

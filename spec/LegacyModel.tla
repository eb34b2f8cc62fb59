----------------------------- MODULE LegacyModel -----------------------------
(* Every short history of the legacy recorder (C14): spans and drops conserved. *)
EXTENDS LegacyManual, FiniteSets, TLC, Json
CONSTANTS Maxes, MaxSpans
VARIABLES s, n, act
vars == <<s, n, act>>
As == {"hold", "ok", "off", "fail", "throw"}
Init == \E m \in Maxes : s = New(m) /\ n = 0 /\ act = [op |-> "new", max |-> m]
\* answers that cannot be asked for are not offered; the collector's command in the
\* middle of one recording call is left out (the code may or may not take that span)
Rec(a1, a2) == /\ n < MaxSpans /\ ~(Len(s.pend) >= s.max /\ a1 = "off")
               /\ (WouldSend(s) /\ Len(s.pend) >= s.max) \/ a2 = "ok"
               /\ s' = Record(Fresh(s), n + 1, a1, a2) /\ n' = n + 1
               /\ act' = [op |-> "rec", a1 |-> a1, a2 |-> a2]
Fl(a) == s' = Flush(Fresh(s), a) /\ act' = [op |-> "flush", a |-> a] /\ UNCHANGED n
Ans(a) == /\ s.fl.on /\ a \in {"ok", "off", "fail"} /\ s' = Answered(Fresh(s), a) /\ act' = [op |-> "answer", a |-> a] /\ UNCHANGED n
SetMax(m) == s.max # m /\ s' = [Fresh(s) EXCEPT !.max = m] /\ act' = [op |-> "max", m |-> m] /\ UNCHANGED n
Next == \/ \E a1, a2 \in As : Rec(a1, a2)
        \/ \E a \in As : Fl(a) \/ Ans(a)
        \/ \E m \in Maxes : SetMax(m)
MSpec == Init /\ [][Next]_vars
Sq(x) == {x[i] : i \in DOMAIN x}
NoRepeat == Cardinality(Sq(s.pend) \cup Sq(s.fl.sp)) = Len(s.pend) + Len(s.fl.sp)
InOrder == \A i, j \in DOMAIN s.pend : i < j => s.pend[i] < s.pend[j]
Conserved == n = Len(s.pend) + Len(s.fl.sp) + s.okn + s.drops + s.fl.d + s.okd
OneReport == s.fl.on => s.fl.sp # <<>>
V(x, k) == <<Len(x.pend), x.drops, x.fl.on, Len(x.fl.sp), x.fl.d, x.max, x.off, x.okn, x.okd, k>>
MView == V(s, n)
MEmit == PrintT("T" \o ToJson([f |-> V(s, n), a |-> act', t |-> V(s', n')]))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(V(s, n)))
===============================================================================

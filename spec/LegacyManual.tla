----------------------------- MODULE LegacyManual -----------------------------
(* The legacy user-driven recorder (C14): at most one report is in flight; what *)
(* it carries is given back as drops when it fails.  It is driven by one thread *)
(* at a time, so a call is one step from a recorder state to the next:          *)
(*   pend   spans waiting, oldest first      drops  drops to be reported        *)
(*   fl     the report in flight             max    most spans that may wait    *)
(*   off    the collector asked for silence                                     *)
(*   sends  reports handed to the transport  tsent, tdrop  told to the observer *)
(*   okn, okd  spans and drops delivered                                        *)
EXTENDS Naturals, Integers, Sequences
NoFlight == [on |-> FALSE, sp |-> <<>>, d |-> 0]
New(m) == [pend |-> <<>>, drops |-> 0, fl |-> NoFlight, max |-> m, off |-> FALSE, sends |-> <<>>, tsent |-> 0, tdrop |-> 0, okn |-> 0, okd |-> 0]
Fresh(s) == [s EXCEPT !.sends = <<>>, !.tsent = 0, !.tdrop = 0]
\* answers of the transport: hold (later), ok, off (ok, with the collector's command), fail, throw
Answered(s, a) ==
  CASE a = "hold" -> s
    [] a \in {"ok", "off"} -> [s EXCEPT !.fl = NoFlight, !.off = @ \/ (a = "off"), !.okn = @ + Len(s.fl.sp), !.okd = @ + s.fl.d]
    [] OTHER -> [s EXCEPT !.fl = NoFlight, !.drops = @ + s.fl.d + Len(s.fl.sp), !.tdrop = @ + Len(s.fl.sp)]
WouldSend(s) == ~s.fl.on /\ s.pend # <<>>
Flushed(s, a) ==
  IF ~WouldSend(s) THEN s
  ELSE Answered([s EXCEPT !.fl = [on |-> TRUE, sp |-> s.pend, d |-> s.drops], !.pend = <<>>, !.drops = 0,
                          !.sends = Append(@, [sp |-> s.pend, d |-> s.drops]), !.tsent = @ + Len(s.pend)], a)
Dropped(s) == [s EXCEPT !.drops = @ + 1, !.tdrop = @ + 1]
Put(s, id, a) == LET t == [s EXCEPT !.pend = Append(@, id)] IN IF Len(t.pend) >= t.max THEN Flushed(t, a) ELSE t
Record(s, id, a1, a2) ==
  IF s.off THEN Dropped(s)
  ELSE IF Len(s.pend) < s.max THEN Put(s, id, a1)
  ELSE IF s.fl.on THEN Dropped(s)
  ELSE Put(Flushed(s, a1), id, IF WouldSend(s) THEN a2 ELSE a1)
Flush(s, a) == IF s.off THEN s ELSE Flushed(s, a)
FlushResult(s, a) == IF s.off THEN 0 ELSE IF s.fl.on THEN (IF s.pend = <<>> THEN 1 ELSE 0)
                     ELSE IF WouldSend(s) /\ a = "throw" THEN 0 ELSE 1
===============================================================================

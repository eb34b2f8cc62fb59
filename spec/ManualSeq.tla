------------------------------ MODULE ManualSeq ------------------------------
(* One thread driving the manual recorder (C13, C23): the operation sequences   *)
(* that the check replays on the code.  Effects are those of ManualRecorder,    *)
(* each call taken as a whole.                                                  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Cap, MaxHeld, MaxPend, Forks
VARIABLES n, pend, held, onfull, act
vars == <<n, pend, held, onfull, act>>
\* onfull: what the transport does when told the buffer is full; every send names its policy
Pol == {"hold", "ok", "fail"}
Flushed(k, d, p) == CASE p = "hold" -> /\ held' = Append(held, <<k, d>>) /\ pend' = 0
                      [] p = "ok" -> /\ held' = held /\ pend' = 0
                      [] p = "fail" -> /\ held' = held /\ pend' = k + d
CanFlush(p) == (p = "hold" => Len(held) < MaxHeld) /\ (p = "fail" => n + pend <= MaxPend)
Init == n = 0 /\ pend = 0 /\ held = <<>> /\ onfull \in {0, 1} /\ act = [op |-> "new", full |-> onfull]
Rec(p) == /\ UNCHANGED onfull
          /\ IF n < Cap THEN n' = n + 1 /\ UNCHANGED <<pend, held>>
             ELSE IF onfull = 1 THEN CanFlush(p) /\ n' = 1 /\ Flushed(n, pend, p)
             ELSE pend < MaxPend /\ pend' = pend + 1 /\ UNCHANGED <<n, held>>
          /\ act' = [op |-> "rec", p |-> p]
Flush(p) == /\ UNCHANGED onfull
            /\ IF n = 0 /\ pend = 0 THEN UNCHANGED <<n, pend, held>> ELSE CanFlush(p) /\ n' = 0 /\ Flushed(n, pend, p)
            /\ act' = [op |-> "flush", p |-> p]
Answer(i, ok) == /\ i \in DOMAIN held /\ UNCHANGED <<n, onfull>>
                 /\ held' = SubSeq(held, 1, i - 1) \o SubSeq(held, i + 1, Len(held))
                 /\ pend' = pend + (IF ok = 1 THEN 0 ELSE held[i][1] + held[i][2])
                 /\ pend' <= MaxPend
                 /\ act' = [op |-> "answer", i |-> i, ok |-> ok]
Fork == /\ Forks /\ n' = 0 /\ pend' = 0 /\ UNCHANGED <<held, onfull>> /\ act' = [op |-> "fork"]
MSpec == Init /\ [][\/ \E p \in Pol : Rec(p) \/ Flush(p)
                    \/ \E i \in 1..MaxHeld, ok \in {0, 1} : Answer(i, ok)
                    \/ Fork]_vars
MView == <<n, pend, held, onfull>>
MEmit == PrintT("T" \o ToJson([f |-> <<n, pend, held, onfull>>, a |-> act', t |-> <<n', pend', held', onfull'>>]))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(<<n, pend, held, onfull>>))
===============================================================================

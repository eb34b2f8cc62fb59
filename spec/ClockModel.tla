------------------------------- MODULE ClockModel -------------------------------
(* Two clocks with a fixed offset, read one after the other while time passes;     *)
(* conversion with the measured offset (C33).  Small numbers, all of them.         *)
EXTENDS Naturals, Integers
CONSTANTS MaxT, OffPlus \* the configuration cannot write negative numbers
Off == OffPlus - 20
VARIABLES now, pc, st, sy, delta
vars == <<now, pc, st, sy, delta>>
Init == now = 0 /\ pc = "steady" /\ st = 0 /\ sy = 0 /\ delta = 0
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<pc, st, sy, delta>>
ReadSteady == pc = "steady" /\ st' = now /\ pc' = "system" /\ UNCHANGED <<now, sy, delta>>
ReadSystem == pc = "system" /\ sy' = now + Off /\ pc' = "done" /\ delta' = now + Off - st /\ UNCHANGED <<now, st>>
Spec == Init /\ [][Tick \/ ReadSteady \/ ReadSystem]_vars
ToSystem(t) == t + delta
ToSteady(t) == t - delta
Within == pc = "done" => Off <= delta /\ delta <= Off + (sy - Off - st)
Inverse == \A t \in 0..MaxT : ToSteady(ToSystem(t)) = t /\ ToSystem(ToSteady(t)) = t
Differences == \A t, u \in 0..MaxT : ToSystem(t) - ToSystem(u) = t - u
==================================================================================

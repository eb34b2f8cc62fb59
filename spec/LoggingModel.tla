----------------------------- MODULE LoggingModel ------------------------------
(* Every order of levels and messages: nothing below the level comes out, and     *)
(* nothing at or above it stays in.                                               *)
EXTENDS Logging, Json
CONSTANTS MaxLen, Kinds, Hows
VARIABLES act, kind, n, outs
mvars == <<level, act, kind, n, outs>>
MInit == level = Fresh /\ kind \in Kinds /\ n = 0 /\ outs = <<>> /\ act = [op |-> "init"]
MNext == /\ n < MaxLen /\ n' = n + 1 /\ kind' = kind
         /\ \/ \E l \in 0..4 : l # level /\ level' = l /\ act' = [op |-> "level", l |-> l] /\ outs' = <<>>
            \/ \E l \in 0..3, h \in Hows : level' = level /\ act' = [op |-> "log", l |-> l, h |-> h] /\ outs' = (IF h = "odd" THEN <<>> ELSE Out(l, "m"))
            \/ \E v \in {0, 1} : level' = level /\ act' = [op |-> "resp", v |-> v] /\ outs' = <<>>
MSpec == MInit /\ [][MNext]_mvars
InvLevel == \A i \in 1..Len(outs) : outs[i][1] >= level
InvOff == level = 4 => outs = <<>>
MView == <<kind, level, n>>
MEmit == PrintT("T" \o ToJson([f |-> <<kind, level, n>>, a |-> act', t |-> <<kind', level', n'>>]))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(<<kind, level, n>>)) ELSE TRUE
===============================================================================

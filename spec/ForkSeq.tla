------------------------------- MODULE ForkSeq -------------------------------
(* Every order of creating, destroying and forking (C23): the list of recorders *)
(* as they were created, for replay on the code.                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Recs
VARIABLES ls, act
Init == ls = <<>> /\ act = [op |-> "start"]
SNext == \/ \E r \in Recs : (\A i \in DOMAIN ls : ls[i] # r) /\ ls' = Append(ls, r) /\ act' = [op |-> "new", r |-> r]
         \/ \E i \in DOMAIN ls : ls' = SubSeq(ls, 1, i - 1) \o SubSeq(ls, i + 1, Len(ls)) /\ act' = [op |-> "del", r |-> ls[i]]
         \/ ls' = ls /\ act' = [op |-> "fork"]
MSpec == Init /\ [][SNext]_<<ls, act>>
MView == ls
MEmit == PrintT("T" \o ToJson([f |-> ls, a |-> act', t |-> ls']))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(ls))
===============================================================================

------------------------------- MODULE FlatMapModel -------------------------------
(* All insertion sequences over a few keys; the transitions are replayed.            *)
EXTENDS FlatMap, TLC, Json
CONSTANTS Keys, Values
VARIABLES m, ghost, act
vars == <<m, ghost, act>>
Lt(a, b) == a < b
Init == m = <<>> /\ ghost = [k \in Keys |-> ""] /\ act = [op |-> "init"]
DoInsert(k, v) == m' = Insert(m, k, v, Lt) /\ ghost' = [ghost EXCEPT ![k] = v] /\ act' = [op |-> "ins", k |-> k, v |-> v]
Next == \E k \in Keys, v \in Values : DoInsert(k, v)
MSpec == Init /\ [][Next]_vars
MView == m
IsSorted == Sorted(m, Lt)
IsMap == \A k \in Keys : ValueOf(m, k) = ghost[k]
Unique == \A i, j \in 1..Len(m) : m[i][1] = m[j][1] => i = j
MEmit == PrintT("T" \o ToJson([f |-> m, a |-> act', t |-> m']))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(m)) ELSE TRUE
====================================================================================

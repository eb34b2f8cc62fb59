--------------------------------- MODULE FlatMap ---------------------------------
(* A map kept as a sequence of pairs sorted by key (C31).  Lt is the order.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Pos(m, k) == {i \in 1..Len(m) : m[i][1] = k}
Insert(m, k, v, Lt(_, _)) ==
  IF Pos(m, k) # {} THEN LET i == CHOOSE x \in Pos(m, k) : TRUE IN [m EXCEPT ![i][2] = v]
  ELSE LET n == Cardinality({i \in 1..Len(m) : Lt(m[i][1], k)})
       IN SubSeq(m, 1, n) \o <<<<k, v>>>> \o SubSeq(m, n + 1, Len(m))
PosOf(m, k) == IF Pos(m, k) = {} THEN -1 ELSE (CHOOSE x \in Pos(m, k) : TRUE) - 1
ValueOf(m, k) == IF Pos(m, k) = {} THEN "" ELSE m[CHOOSE x \in Pos(m, k) : TRUE][2]
Sorted(m, Lt(_, _)) == \A i \in 1..(Len(m) - 1) : Lt(m[i][1], m[i + 1][1])
==================================================================================

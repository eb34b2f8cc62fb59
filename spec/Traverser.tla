--------------------------------- MODULE Traverser ---------------------------------
(* The shuffling traversal of random_traverser.cpp (C30): before visit i the element  *)
(* at i is exchanged with any at i..n; the arrangement is kept between traversals.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Rounds
VARIABLES a, i, seen, r
vars == <<a, i, seen, r>>
Init == a = [x \in 1..N |-> x - 1] /\ i = 1 /\ seen = <<>> /\ r = 1
Swap(j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Visit == /\ i <= N
         /\ \E j \in (IF i = N THEN {N} ELSE i..N) : a' = Swap(j) /\ seen' = Append(seen, Swap(j)[i])
         /\ i' = i + 1 /\ r' = r
Again == /\ r < Rounds /\ i > 1 \* completed or stopped early
         /\ r' = r + 1 /\ i' = 1 /\ seen' = <<>> /\ a' = a
Spec == Init /\ [][Visit \/ Again]_vars
Distinct == \A x, y \in 1..Len(seen) : seen[x] = seen[y] => x = y
Complete == i = N + 1 => {seen[x] : x \in 1..Len(seen)} = 0..(N - 1)
Permuted == {a[x] : x \in 1..N} = 0..(N - 1)
====================================================================================

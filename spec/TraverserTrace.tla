------------------------------- MODULE TraverserTrace -------------------------------
(* Random traversals (C30).  "all" is asserted after many traversals of a small size:   *)
(* every order occurred.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TraceKit
VARIABLES size, orders, tid, l
vars == <<size, orders, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ size = <<>> /\ orders = {}
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Visited(e) ==
  LET n == size[e.id] IN
  /\ Range(e.v) \subseteq 0..(n - 1)
  /\ Cardinality(Range(e.v)) = Len(e.v)
  /\ IF e.k >= 1 /\ e.k <= n THEN e.r = 0 /\ Len(e.v) = e.k ELSE e.r = 1 /\ Len(e.v) = n
  /\ orders' = IF n <= 4 /\ Len(e.v) = n THEN orders \cup {e.v} ELSE orders
  /\ UNCHANGED size
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Step(e) ==
  \/ e.e = "tn" /\ size' = Ext(size, e.id, e.n) /\ orders' = {}
  \/ e.e = "tr" /\ Visited(e)
  \/ e.e = "tall" /\ Cardinality(orders) = Fact(size[e.id]) /\ UNCHANGED <<size, orders>>
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
======================================================================================

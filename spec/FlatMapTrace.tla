------------------------------- MODULE FlatMapTrace -------------------------------
(* Two maps are driven: "s" with string keys in their natural order (the trace names  *)
(* each key's rank beforehand, TLC having no order on strings), "g" with integers in  *)
(* descending order.                                                                  *)
EXTENDS FlatMap, TraceKit
VARIABLES s, g, rank, tid, l
vars == <<s, g, rank, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ s = <<>> /\ g = <<>> /\ rank = <<>>
LtS(a, b) == rank[a] < rank[b]
LtG(a, b) == a > b
M(e) == IF e.m = "s" THEN s ELSE g
Ins(e) ==
  /\ LET n == IF e.m = "s" THEN Insert(s, e.k, e.v, LtS) ELSE Insert(g, e.k, e.v, LtG)
     IN /\ IF e.m = "s" THEN s' = n /\ g' = g ELSE g' = n /\ s' = s
        /\ e.pos = PosOf(n, e.k)
        /\ e.at = <<e.k, e.v>>
  /\ UNCHANGED rank
Step(e) ==
  \/ e.e = "rank" /\ rank' = e.r /\ UNCHANGED <<s, g>>
  \/ e.e = "ins" /\ Ins(e)
  \/ e.e = "it" /\ e.v = M(e) /\ e.n = Len(M(e)) /\ (e.em = 1) = (M(e) = <<>>) /\ UNCHANGED <<s, g, rank>>
  \/ /\ e.e = "fnd" /\ e.same = 1
     /\ (e.hit = 1) = (Pos(M(e), e.k) # {}) /\ e.pos = PosOf(M(e), e.k) /\ e.v = ValueOf(M(e), e.k)
     /\ UNCHANGED <<s, g, rank>>
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
====================================================================================

------------------------------ MODULE EndpointsTrace ------------------------------
(* Splitting endpoint lists (C22).  Host names are character codes; case is folded.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Fold(s) == TLCEval([i \in 1..Len(s) |-> Low(s[i])])
Separated(e) ==
  LET hosts == TLCEval([i \in 1..Len(e.h) |-> Fold(e.h[i])])
      ins   == TLCEval([i \in 1..Len(e.in) |-> Fold(e.in[i][1])])
      given == TLCEval({e.in[i][1] : i \in 1..Len(e.in)})
  IN /\ Cardinality(Range(hosts)) = Len(hosts)
     /\ Range(hosts) = Range(ins)
     /\ \A i \in 1..Len(hosts) : e.h[i] \in given
     /\ Len(e.out) = Len(ins)
     /\ \A i \in 1..Len(ins) : /\ e.out[i][1] \in 0..(Len(hosts) - 1)
                               /\ hosts[e.out[i][1] + 1] = ins[i]
                               /\ e.out[i][2] = e.in[i][2]
Step(e) == e.e = "sep" /\ Separated(e)
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===================================================================================

--------------------------------- MODULE IpTrace ---------------------------------
(* Addresses (C37): text is accepted exactly when it is an address; bits, family    *)
(* and port are kept; the printed form denotes the same address; equality is        *)
(* equality of the three.                                                           *)
EXTENDS IpText, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1
Parsed(e) ==
  LET b == Parse(e.t) IN
  IF b = <<>> THEN e.ok = 0
  ELSE /\ e.ok = 1 /\ e.a.b = b /\ e.a.fam = FamilyOf(b) /\ e.a.port = e.port
       /\ Parse(e.txt) = b /\ e.rt = 1
Same(a, b) == a.fam = b.fam /\ a.b = b.b /\ a.port = b.port
Step(e) ==
  \/ e.e = "ptn" /\ Parsed(e)
  \/ e.e = "eq" /\ (e.r = 1) = Same(e.a, e.b) /\ e.ne = 1 - e.r /\ e.sw = e.r /\ e.cp = e.r /\ Parse(e.txt) = e.a.b
  \/ e.e = "mk" /\ e.a.fam = e.fam /\ e.a.b = e.bits /\ e.a.port = e.port /\ e.saf = e.fam
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===================================================================================

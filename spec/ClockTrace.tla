------------------------------- MODULE ClockTrace -------------------------------
(* Clock conversion (C33): system = steady + offset, steady = system - offset,     *)
(* exactly and modulo nothing a clock reaches, so that each undoes the other and   *)
(* differences are kept; the measured offset is the true one give or take the time *)
(* the measurement itself took.                                                    *)
EXTENDS Numbers, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1
Step(e) ==
  \/ e.e = "sys" /\ e.r = Add(e.x, e.d) /\ e.k = e.x
  \/ e.e = "std" /\ e.r = Sub(e.x, e.d) /\ e.k = e.x
  \/ e.e = "delta" /\ \E z \in (-e.el)..e.el : e.d = Add(e.o, Small(z))
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
==================================================================================

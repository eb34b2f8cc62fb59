------------------------------ MODULE TraceKit ------------------------------
(* Shared frame of every trace specification.  The file named by TRACES holds  *)
(* an array of traces, each an array of event records.  TLC explores all of    *)
(* them at once (tid is the trace); a trace is accepted when all of its events *)
(* have been consumed by specification actions.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt, Functions

Traces == JsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)

ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

\* evaluated once per distinct state: reports acceptance and remembers progress
TMarkAt(tid, l) ==
  /\ IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE
  /\ IF l = Len(Traces[tid]) + 1 THEN PrintT("A " \o ToString(tid)) ELSE TRUE

TPostAll == \A i \in 1..NTraces :
  IF TLCGet(i) <= Len(Traces[i]) THEN PrintT("P " \o ToString(i) \o " " \o ToString(TLCGet(i))) ELSE TRUE
=============================================================================

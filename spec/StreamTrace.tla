----------------------------- MODULE StreamTrace -----------------------------
(* Trace specification over FragmentStreams: one event per executed operation. *)
EXTENDS FragmentStreams, TraceKit
VARIABLES tid, l
tvars == <<c, st, lent, tid, l>>

TInit == tid \in 1..NTraces /\ l = 1 /\ SInit

Step(e) ==
  \/ e.e = "A" /\ NewArray(e.s, e.p, e.n)
  \/ e.e = "C" /\ NewChain(e.s)
  \/ e.e = "N" /\ e.ok = 1 /\ NextBuffer(e.s, e.p, e.n, e.bc)
  \/ e.e = "B" /\ BackUp(e.s, e.n, e.bc)
  \/ e.e = "X" /\ Close(e.s, e.bc)
  \/ e.e = "P" /\ AppendTo(e.s, e.o)
  \/ e.e = "R" /\ Read(e.s, e.k, e.nf, e.v, e.r, e.em, Norm(e.f))
  \/ e.e = "K" /\ Consume(e.ss, e.n, e.r)
  \/ e.e = "L" /\ ClearStream(e.s)
  \/ e.e = "W" /\ Write(e.ss, e.c, e.r)

TNext == /\ l <= Len(Traces[tid])
         /\ Step(Traces[tid][l])
         /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
=============================================================================

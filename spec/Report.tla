------------------------------- MODULE Report -------------------------------
(* What a report is (C12): its header, then at most one metrics message with  *)
(* the drop count, then its spans in the order they were added.  Bytes are    *)
(* runs <<first, length>> as in FragmentStreams; the bytes of the metrics     *)
(* message are written by the report itself and have the run <<-1, length>>.  *)
EXTENDS Naturals, Integers, Sequences
LOCAL INSTANCE FragmentStreams WITH c <- <<>>, st <- <<>>, lent <- <<>>

\* a report: header run, drop count, spans (their runs), length of the metrics message
New(p, n, d, ml) == [h |-> <<p, n>>, d |-> d, ml |-> ml, sp |-> <<>>]
Add(q, runs) == [q EXCEPT !.sp = Append(@, runs)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Bytes(q) == Norm(<<q.h>> \o (IF q.d > 0 THEN <<<<-1, q.ml>>>> ELSE <<>>) \o Cat(q.sp))
Metrics(q) == IF q.d > 0 THEN <<<<"spans.dropped", q.d>>>> ELSE <<>>
\* what it advertises
Counts(q, e) == /\ e.nb = BytesOf(Bytes(q)) /\ e.ns = Len(q.sp) /\ e.nd = q.d
\* an iteration that asks to stop at the k-th fragment (0: never); e.v fragments visited
Iterated(q, e) ==
  LET all == Bytes(q)
      f == Norm(e.f)
  IN IF e.k >= 1 /\ e.k <= e.nf
     THEN /\ e.v = e.k /\ e.r = 0
          /\ f = TakeB(all, BytesOf(f))
          /\ e.k = e.nf => f = all
     ELSE /\ e.v = e.nf /\ e.r = 1
          /\ f = all
          /\ e.m = Metrics(q)
=============================================================================

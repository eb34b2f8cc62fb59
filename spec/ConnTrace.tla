------------------------------ MODULE ConnTrace ------------------------------
(* Histories of the real connection streams (C09, C10).  The bytes written on  *)
(* each connection have been parsed as one chunked request since its reset:    *)
(* fin lists what a flush completed (-1 the request head with its first chunk, *)
(* -2 the terminator, else a span), part what the item in progress may be.     *)
EXTENDS TraceKit
CONSTANT Counts     \* whether the numbers told to the metrics are judged (C10) or the bytes only (C09)
VARIABLES q, conn, occurred, delivered, ended, tid, l
cvars == <<q, conn, occurred, delivered, ended>>
tvars == <<q, conn, occurred, delivered, ended, tid, l>>
H == -1
Z == -2
Fresh == [head |-> FALSE, cur |-> 0, shut |-> 0, term |-> 0]
TInit == tid \in 1..NTraces /\ l = 1 /\ q = <<>> /\ conn = <<>> /\ occurred = 0 /\ delivered = 0 /\ ended = FALSE

Start(e) == /\ conn = <<>> /\ conn' = [i \in 1..e.nc |-> Fresh] /\ UNCHANGED <<q, occurred, delivered, ended>>
Looks(e, cc, qq) == /\ e.n = Len(qq)
                    /\ \A i \in 1..Len(cc) : e.st[i] = <<cc[i].shut, cc[i].term>>
\* a span is accepted unless the buffer is full, and counted if refused
Add(e) == /\ q' = IF e.ok = 1 THEN Append(q, e.id) ELSE q
          /\ e.ok = 1 \/ Len(q) = Traces[tid][1].cap
          /\ (Counts => e.dropped = 1 - e.ok /\ e.sent = 0)
          /\ occurred' = occurred + 1 - e.ok
          /\ UNCHANGED <<conn, delivered, ended>> /\ Looks(e, conn, q')
Drop(e) == /\ occurred' = occurred + e.n0 /\ (Counts => e.dropped = e.n0 /\ e.sent = 0)
           /\ UNCHANGED <<q, conn, delivered, ended>> /\ Looks(e, conn, q)

\* what is due on a connection, in order
Due(i) == (IF conn[i].head THEN <<>> ELSE <<H>>)
          \o (IF conn[i].cur > 0 THEN <<conn[i].cur>> ELSE <<>>)
          \o (IF conn[i].shut = 1 THEN (IF conn[i].term = 1 THEN <<>> ELSE <<Z>>) ELSE q)
Flush(e) ==
  LET i == e.i + 1
      due == Due(i)
      k == Len(e.fin)
      done == {e.fin[j] : j \in 1..k}
      spans == {x \in done : x > 0}
      rest == SubSeq(due, k + 1, Len(due))
      cur == IF e.part # <<>> /\ rest # <<>> /\ rest[1] > 0 THEN rest[1]
             ELSE IF conn[i].cur \in done THEN 0 ELSE conn[i].cur
  IN /\ k <= Len(due) /\ e.fin = SubSeq(due, 1, k)
     /\ e.part # <<>> => rest # <<>> /\ \E j \in 1..Len(e.part) : e.part[j] = rest[1]
     /\ (e.r = 1) = (rest = <<>>)
     \* a span begun here stays in progress
     /\ cur > 0 => e.part # <<>> \/ ~(\E j \in 1..Len(q) : q[j] = cur)
     /\ q' = SelectSeq(q, LAMBDA x : x \notin spans /\ x # cur)
     /\ (Counts => e.sent = Cardinality(spans) /\ e.dropped = 0)
     /\ e.counted >= 0
     /\ delivered' = delivered + e.counted /\ (Counts => delivered' <= occurred)
     /\ conn' = [conn EXCEPT ![i].head = @ \/ H \in done, ![i].cur = cur, ![i].term = IF Z \in done THEN 1 ELSE @]
     /\ UNCHANGED <<occurred, ended>> /\ Looks(e, conn', q')
Shut(e) == /\ conn' = [conn EXCEPT ![e.i + 1].shut = 1] /\ (Counts => e.sent = 0 /\ e.dropped = 0)
           /\ UNCHANGED <<q, occurred, delivered, ended>> /\ Looks(e, conn', q)
\* the span cut off with the connection is a drop; what the head was to report is owed again
Reset(e) == /\ (Counts => e.dropped = (IF conn[e.i + 1].cur > 0 THEN 1 ELSE 0) /\ e.sent = 0)
            /\ occurred' = occurred + (IF conn[e.i + 1].cur > 0 THEN 1 ELSE 0)
            /\ conn' = [conn EXCEPT ![e.i + 1] = Fresh]
            /\ UNCHANGED <<q, delivered, ended>> /\ Looks(e, conn', q)
\* everything was reset and then written: all drops have been delivered, no span is left
End == /\ (Counts => delivered = occurred)
       /\ q = <<>> /\ \A i \in 1..Len(conn) : conn[i].cur = 0
       /\ ended' = TRUE /\ UNCHANGED <<q, conn, occurred, delivered>>
Step(e) == \/ e.e = "init" /\ Start(e)
           \/ e.e = "add" /\ Add(e)
           \/ e.e = "drop" /\ Drop(e)
           \/ e.e = "flush" /\ Flush(e)
           \/ e.e = "shut" /\ Shut(e)
           \/ e.e = "reset" /\ Reset(e)
           \/ e.e = "end" /\ End
TNext == /\ l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
=============================================================================

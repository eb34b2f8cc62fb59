------------------------------ MODULE ConnModel ------------------------------
(* The algorithm of connection_stream.cpp (C09, C10): several connections draw *)
(* on one buffer of spans.  Each item (request head, span, terminator) is two  *)
(* units long, so that a write can stop before, inside and after any of them.  *)
(* A flush writes k units and then may find the connection broken.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NConn, MaxAdds, MaxDrops, MaxResets
VARIABLES q,        \* spans waiting
          n,        \* spans added so far
          conn,     \* connection -> [head, rem, pos, shut, term, took]
          pend,     \* drops not yet taken by any connection
          occurred, \* drops so far
          delivered,\* drop counts whose head was written completely
          sent, cutoff, resets,
          out,      \* ghost: connection -> units written since its reset: <<item, unit>>
          act
vars == <<q, n, conn, pend, occurred, delivered, sent, cutoff, resets, out, act>>
C == 1..NConn
Fresh(took) == [head |-> 0, rem |-> 0, pos |-> 0, shut |-> FALSE, term |-> 0, took |-> took, broken |-> FALSE]
Init == /\ q = <<>> /\ n = 0 /\ pend = 0 /\ occurred = 0 /\ delivered = 0 /\ sent = 0 /\ cutoff = 0 /\ resets = 0
        /\ conn = [i \in C |-> Fresh(0)] /\ out = [i \in C |-> <<>>] /\ act = [op |-> "init"]
Add == /\ n < MaxAdds /\ n' = n + 1 /\ q' = Append(q, n + 1) /\ act' = [op |-> "add"]
       /\ UNCHANGED <<conn, pend, occurred, delivered, sent, cutoff, resets, out>>
Drop == /\ occurred < MaxDrops /\ occurred' = occurred + 1 /\ pend' = pend + 1 /\ act' = [op |-> "drop"]
        /\ UNCHANGED <<q, n, conn, delivered, sent, cutoff, resets, out>>
Units(x, from) == IF from = 0 THEN <<<<x, 1>>, <<x, 2>>>> ELSE IF from = 1 THEN <<<<x, 2>>>> ELSE <<>>
RECURSIVE Spans(_)
Spans(s) == IF s = <<>> THEN <<>> ELSE Units(s[1], 0) \o Spans(Tail(s))
H == -1
Z == -2
Avail(i) == Units(H, conn[i].head)
            \o (IF conn[i].rem # 0 THEN Units(conn[i].rem, conn[i].pos) ELSE <<>>)
            \o (IF conn[i].shut THEN Units(Z, conn[i].term) ELSE Spans(q))
Min(a, b) == IF a < b THEN a ELSE b
Flush(i, k, fail) ==
  /\ ~conn[i].broken
  /\ LET av == Avail(i)
         w == SubSeq(av, 1, k)
         done(x) == \E j \in 1..k : w[j] = <<x, 2>>
         begun(x) == \E j \in 1..k : w[j] = <<x, 1>>
         whole == {x \in 1..n : done(x)}
         cut == {x \in 1..n : begun(x) /\ ~done(x)}
         oldrem == IF conn[i].rem # 0 /\ done(conn[i].rem) THEN 0 ELSE conn[i].rem
         rem == IF cut # {} THEN CHOOSE x \in cut : TRUE ELSE oldrem
     IN /\ k <= Len(av)
        /\ (fail => k < Len(av) /\ resets < MaxResets)
        /\ q' = SelectSeq(q, LAMBDA x : x \notin whole /\ x \notin cut)
        /\ sent' = sent + Cardinality(whole)
        /\ delivered' = delivered + (IF done(H) THEN conn[i].took ELSE 0)
        /\ conn' = [conn EXCEPT ![i].head = IF done(H) THEN 2 ELSE IF begun(H) THEN 1 ELSE @,
                                ![i].term = IF done(Z) THEN 2 ELSE IF begun(Z) THEN 1 ELSE @,
                                ![i].rem = rem, ![i].pos = IF rem # 0 THEN 1 ELSE 0,
                                ![i].broken = fail]
        /\ out' = [out EXCEPT ![i] = @ \o w]
        /\ act' = [op |-> "F", i |-> i, w |-> w, r |-> IF fail THEN -1 ELSE IF k = Len(av) THEN 1 ELSE 0]
  /\ UNCHANGED <<n, pend, occurred, cutoff, resets>>
Shut(i) == /\ ~conn[i].shut /\ conn' = [conn EXCEPT ![i].shut = TRUE] /\ act' = [op |-> "S", i |-> i]
           /\ UNCHANGED <<q, n, pend, occurred, delivered, sent, cutoff, resets, out>>
Reset(i) ==
  /\ resets < MaxResets /\ resets' = resets + 1
  /\ LET back == IF conn[i].head < 2 THEN conn[i].took ELSE 0
         cut == IF conn[i].rem # 0 THEN 1 ELSE 0
     IN /\ conn' = [conn EXCEPT ![i] = Fresh(pend + back + cut)]
        /\ pend' = 0 /\ occurred' = occurred + cut /\ cutoff' = cutoff + cut
  /\ out' = [out EXCEPT ![i] = <<>>]
  /\ act' = [op |-> "R", i |-> i]
  /\ UNCHANGED <<q, n, delivered, sent>>
\* the owner of a broken connection resets it before anything else happens
Next == IF \E i \in C : conn[i].broken THEN \E i \in C : conn[i].broken /\ Reset(i)
        ELSE \/ Add \/ Drop
             \/ \E i \in C : Shut(i) \/ Reset(i) \/ \E k \in 0..Len(Avail(i)), fail \in BOOLEAN : Flush(i, k, fail)
MSpec == Init /\ [][Next]_vars
MView == <<q, n, conn, pend, occurred, resets>>

\* ---- the properties
WellFormed == \A i \in C : \A j \in 1..Len(out[i]) :
   /\ (j = 1) => out[i][1] = <<H, 1>>
   /\ j > 1 => \/ out[i][j - 1][2] = 1 /\ out[i][j] = <<out[i][j - 1][1], 2>>
               \/ out[i][j - 1][2] = 2 /\ out[i][j][2] = 1 /\ out[i][j][1] # H
   /\ out[i][j][1] = Z => \A m \in j..Len(out[i]) : out[i][m][1] = Z
InFlight == Cardinality({i \in C : conn[i].rem # 0})
Accounted == sent + cutoff + InFlight + Len(q) = n
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (IF conn[x].head < 2 THEN conn[x].took ELSE 0) + Sum(S \ {x})
Drops == delivered + pend + Sum(C) = occurred
Once == \A x \in 1..n : Cardinality({i \in C : conn[i].rem = x}) + (IF \E j \in 1..Len(q) : q[j] = x THEN 1 ELSE 0) <= 1
MEmit == PrintT("T" \o ToJson([f |-> <<q, n, conn, pend, occurred, resets>>, a |-> act', t |-> <<q', n', conn', pend', occurred', resets'>>]))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(<<q, n, conn, pend, occurred, resets>>)) ELSE TRUE
=============================================================================

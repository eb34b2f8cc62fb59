-------------------------------- MODULE Logging --------------------------------
(* What reaches the log (C40).  Levels 0 debug, 1 info, 2 warn, 3 error, 4 off.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES level
Fresh == 3
Admits(n) == n >= level /\ n < 4
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
\* one message: as it was given, once, or not at all
Out(n, text) == IF Admits(n) THEN << <<n, text>> >> ELSE <<>>
At(got, n) == LET s == SelectSeq(got, LAMBDA m : m[1] = n) IN [i \in 1..Len(s) |-> s[i][2]]
RECURSIVE Within(_, _)
\* a, in order, among b
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) = Head(b) THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
\* a collector's response: its errors and warnings always, what it has to tell besides only on request
Response(v, errors, warnings, infos, got) ==
  /\ At(got, 3) = (IF Admits(3) THEN errors ELSE <<>>)
  /\ At(got, 2) = (IF Admits(2) THEN warnings ELSE <<>>)
  /\ IF v = 1 /\ Admits(1) THEN Within(infos, At(got, 1)) /\ Len(At(got, 1)) <= Len(infos) + 1 ELSE At(got, 1) = <<>>
  /\ \A i \in 1..Len(got) : got[i][1] \in 1..3
===============================================================================

------------------------------ MODULE StatusLine ------------------------------
(* A reply's first line (C21): <word> SP <three digits> SP <reason> CR.          *)
EXTENDS Naturals, Integers, Sequences
VARIABLES line, done, code, reason
slvars == <<line, done, code, reason>>
SLInit == line = <<>> /\ done = FALSE /\ code = -1 /\ reason = <<>>
SP == 32
CR == 13
\* position of the first x in s at or after i, 0 if none
RECURSIVE Find(_, _, _)
Find(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE Find(s, x, i + 1)
Digit(c) == c >= 48 /\ c <= 57
ValidLine(s) == LET a == Find(s, SP, 1) IN
            /\ a > 0 /\ Find(s, SP, a + 1) = a + 4
            /\ \A i \in (a + 1)..(a + 3) : Digit(s[i])
CodeOf(s) == LET a == Find(s, SP, 1) IN (s[a + 1] - 48) * 100 + (s[a + 2] - 48) * 10 + (s[a + 3] - 48)
ReasonOf(s) == SubSeq(s, Find(s, SP, 1) + 5, Len(s))
Parse(s, thrown) ==
  IF done THEN thrown = 0 /\ UNCHANGED slvars      \* what follows the line does not matter
  ELSE LET e == Find(s, CR, 1)
           w == line \o (IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1))
       IN IF e = 0 THEN thrown = 0 /\ line' = w /\ UNCHANGED <<done, code, reason>>
          ELSE IF ValidLine(w) THEN thrown = 0 /\ line' = w /\ done' = TRUE /\ code' = CodeOf(w) /\ reason' = ReasonOf(w)
          ELSE thrown = 1 /\ line' = <<>> /\ UNCHANGED <<done, code, reason>>
Reset == line' = <<>> /\ done' = FALSE /\ code' = -1 /\ reason' = <<>>
===============================================================================

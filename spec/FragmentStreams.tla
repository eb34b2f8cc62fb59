--------------------------- MODULE FragmentStreams ---------------------------
(* What the byte-fragment streams mean (C05, C06, C07).                        *)
(*                                                                             *)
(* A stream's content is the sequence of bytes it still has to deliver.  Bytes *)
(* carry identities (positions); contiguous positions are kept as one run      *)
(* <<first, length>>.  Every operation of the implementation is one action:    *)
(*   Next/BackUp/Close  - a serializer borrows, returns, and closes (C06)      *)
(*   Append             - chaining (C06)                                       *)
(*   Read               - iterating the fragments, possibly stopping early     *)
(*   Consume            - dropping a prefix of a group of streams (C05)        *)
(*   Write              - a gathered write against a kernel that may accept a  *)
(*                        part, block, or fail (C07)                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES c,      \* stream -> runs it still holds
          st,     \* stream -> "open" | "closed"
          lent    \* stream -> what is left of the last buffer handed out by Next

svars == <<c, st, lent>>

IovMax == 1024

RECURSIVE BytesOf(_)
BytesOf(r) == IF r = <<>> THEN 0 ELSE r[1][2] + BytesOf(Tail(r))

RECURSIVE Norm(_)
Norm(r) ==
  IF r = <<>> THEN <<>>
  ELSE IF r[1][2] = 0 THEN Norm(Tail(r))
  ELSE LET t == Norm(Tail(r)) IN
       IF t # <<>> /\ r[1][1] + r[1][2] = t[1][1]
       THEN <<<<r[1][1], r[1][2] + t[1][2]>>>> \o Tail(t)
       ELSE <<<<r[1][1], r[1][2]>>>> \o t

RECURSIVE DropB(_, _)
DropB(r, n) ==
  IF n = 0 \/ r = <<>> THEN r
  ELSE IF r[1][2] <= n THEN DropB(Tail(r), n - r[1][2])
  ELSE <<<<r[1][1] + n, r[1][2] - n>>>> \o Tail(r)

RECURSIVE TakeB(_, _)
TakeB(r, n) ==
  IF n = 0 \/ r = <<>> THEN <<>>
  ELSE IF r[1][2] <= n THEN <<r[1]>> \o TakeB(Tail(r), n - r[1][2])
  ELSE <<<<r[1][1], n>>>>

\* the bytes of a group of streams, in order
RECURSIVE Group(_, _)
Group(cc, ss) == IF ss = <<>> THEN <<>> ELSE cc[ss[1]] \o Group(cc, Tail(ss))

\* drop the first n bytes of the group
RECURSIVE DropGroup(_, _, _)
DropGroup(cc, ss, n) ==
  IF ss = <<>> THEN cc
  ELSE LET b == BytesOf(cc[ss[1]])
           k == IF n < b THEN n ELSE b
       IN DropGroup([cc EXCEPT ![ss[1]] = DropB(@, k)], Tail(ss), n - k)

SInit == c = <<>> /\ st = <<>> /\ lent = <<>>

Ext(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]

NewArray(s, p, n) ==
  /\ s \notin DOMAIN c
  /\ c' = Ext(c, s, Norm(<<<<p, n>>>>)) /\ st' = Ext(st, s, "closed") /\ lent' = Ext(lent, s, 0)

NewChain(s) ==
  /\ s \notin DOMAIN c
  /\ c' = Ext(c, s, <<>>) /\ st' = Ext(st, s, "open") /\ lent' = Ext(lent, s, 0)

\* a buffer of n > 0 bytes is handed out; the serializer fills all of it
NextBuffer(s, p, n, bc) ==
  /\ st[s] = "open" /\ n > 0
  /\ bc = BytesOf(c[s]) + n
  /\ c' = [c EXCEPT ![s] = Norm(@ \o <<<<p, n>>>>)]
  /\ lent' = [lent EXCEPT ![s] = n]
  /\ UNCHANGED st

BackUp(s, n, bc) ==
  /\ st[s] = "open" /\ n \in 0..lent[s]
  /\ bc = BytesOf(c[s]) - n
  /\ c' = [c EXCEPT ![s] = TakeB(@, BytesOf(@) - n)]
  /\ lent' = [lent EXCEPT ![s] = @ - n]
  /\ UNCHANGED st

Close(s, bc) ==
  /\ st[s] = "open"
  /\ bc = BytesOf(c[s])
  /\ st' = [st EXCEPT ![s] = "closed"]
  /\ UNCHANGED <<c, lent>>

AppendTo(s, o) ==
  /\ st[s] = "closed" /\ st[o] = "closed" /\ s # o
  /\ c' = [c EXCEPT ![s] = Norm(@ \o c[o]), ![o] = <<>>]
  /\ st' = [st EXCEPT ![o] = "gone"]
  /\ UNCHANGED lent

\* Iteration: nf fragments are announced; the callback asks to stop at the k-th
\* (k = 0: never).  f: the bytes visited, v: how many fragments, r: completed.
Read(s, k, nf, v, r, em, f) ==
  /\ st[s] = "closed"
  /\ (em = 1) = (nf = 0)
  /\ IF k >= 1 /\ k <= nf
     THEN /\ v = k /\ r = 0
          /\ f = TakeB(c[s], BytesOf(f))
          /\ k = nf => f = c[s]
     ELSE /\ v = nf /\ r = 1
          /\ f = c[s]
  /\ c[s] # <<>> => nf > 0
  /\ UNCHANGED svars

Consume(ss, n, r) ==
  LET all == BytesOf(Group(c, ss)) IN
  /\ n <= all
  /\ c' = DropGroup(c, ss, n)
  /\ (r = 1) = (n = all)
  /\ UNCHANGED <<st, lent>>

ClearStream(s) ==
  /\ st[s] = "closed"
  /\ c' = [c EXCEPT ![s] = <<>>]
  /\ UNCHANGED <<st, lent>>

\* One gathered write.  calls: what the kernel was offered and answered, in order.
\* KOk(rem, calls): from the remaining bytes rem every call offers exactly the
\* next bytes, none again after a hard error, and at most IovMax fragments.
RECURSIVE KOk(_, _)
KOk(rem, calls) ==
  IF calls = <<>> THEN TRUE
  ELSE LET k == calls[1]
           off == Norm(k.iov)
           blocked == k.r < 0
           hard == k.r < 0 /\ k.r # -11
       IN /\ k.n <= IovMax
          /\ off = TakeB(rem, BytesOf(off))
          /\ k.r <= BytesOf(off)
          /\ hard => Len(calls) = 1
          /\ KOk(IF blocked THEN rem ELSE DropB(rem, k.r), Tail(calls))

RECURSIVE Accepted(_)
Accepted(calls) == IF calls = <<>> THEN 0 ELSE (IF calls[1].r > 0 THEN calls[1].r ELSE 0) + Accepted(Tail(calls))

Write(ss, calls, r) ==
  LET rem == Norm(Group(c, ss))
      all == BytesOf(rem)
      acc == Accepted(calls)
      last == IF calls = <<>> THEN 0 ELSE calls[Len(calls)].r
      hard == last < 0 /\ last # -11
  IN /\ KOk(rem, calls)
     /\ all > 0 => calls # <<>>
     /\ r = (IF hard THEN -1 ELSE IF acc = all THEN 1 ELSE 0)
     /\ c' = DropGroup(c, ss, acc)
     /\ UNCHANGED <<st, lent>>
=============================================================================

--------------------------- MODULE SpanStreamTrace ---------------------------
(* Streaming buffered spans (C08), validated on recorded operations.  A span   *)
(* stream is a stream of FragmentStreams whose content is what is allotted;    *)
(* consuming it releases whole spans, hands over the cut one, and counts.      *)
EXTENDS FragmentStreams, TraceKit
VARIABLES q,     \* span stream -> names waiting in its buffer, oldest first
          al,    \* span stream -> number allotted
          rem,   \* span stream -> name of the cut span not yet taken, or ""
          prod, cons, tid, l
xvars == <<q, al, rem, prod, cons>>
tvars == <<c, st, lent, q, al, rem, prod, cons, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ SInit /\ q = <<>> /\ al = <<>> /\ rem = <<>> /\ prod = <<>> /\ cons = <<>>

IsSpans(s) == s \in DOMAIN q
NewSpans(s) ==
  /\ s \notin DOMAIN c
  /\ c' = Ext(c, s, <<>>) /\ st' = Ext(st, s, "closed") /\ lent' = Ext(lent, s, 0)
  /\ q' = Ext(q, s, <<>>) /\ al' = Ext(al, s, 0) /\ rem' = Ext(rem, s, "") /\ prod' = Ext(prod, s, 0) /\ cons' = Ext(cons, s, 0)
AddSpan(s, o, r) ==
  /\ st[o] = "closed" /\ r = 1
  /\ q' = [q EXCEPT ![s] = Append(@, o)]
  /\ st' = [st EXCEPT ![o] = "buffered"]
  /\ prod' = [prod EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<c, lent, al, rem, cons>>
Allot(s) ==
  /\ al' = [al EXCEPT ![s] = Len(q[s])]
  /\ c' = [c EXCEPT ![s] = Norm(Group(c, q[s]))]
  /\ UNCHANGED <<st, lent, q, rem, prod, cons>>

\* dropping k bytes of the group ss; the span stream among them, if any, is reached
\* when everything before it is gone
RECURSIVE Before(_)
Before(ss) == IF IsSpans(ss[1]) THEN 0 ELSE BytesOf(c[ss[1]]) + Before(Tail(ss))
RECURSIVE Fulls(_, _, _)
Fulls(names, k, i) == IF names # <<>> /\ BytesOf(c[names[1]]) <= k THEN Fulls(Tail(names), k - BytesOf(c[names[1]]), i + 1)
                      ELSE [full |-> i, left |-> k]
SpanOf(ss) == {x \in {ss[i] : i \in 1..Len(ss)} : IsSpans(x)}
Drop(ss, k, sent) ==
  LET sp == SpanOf(ss) IN
  IF sp = {} THEN c' = DropGroup(c, ss, k) /\ sent = 0 /\ UNCHANGED <<st, lent, q, al, rem, prod, cons>>
  ELSE LET s == CHOOSE x \in sp : TRUE
           b == Before(ss)
           total == BytesOf(c[s])
           reached == k >= b
           mine == IF k - b < total THEN k - b ELSE total
           z == Fulls(SubSeq(q[s], 1, al[s]), mine, 0)
           cut == z.left > 0
           taken == z.full + (IF cut THEN 1 ELSE 0)
           d == DropGroup(c, ss, k)
       IN IF ~reached THEN c' = d /\ sent = 0 /\ UNCHANGED <<st, lent, q, al, rem, prod, cons>>
          ELSE /\ sent = z.full
               /\ rem[s] = ""
               /\ c' = [x \in DOMAIN d |->
                          IF x = s THEN <<>>
                          ELSE IF \E i \in 1..z.full : q[s][i] = x THEN <<>>
                          ELSE IF cut /\ x = q[s][taken] THEN DropB(d[x], z.left) ELSE d[x]]
               /\ st' = [x \in DOMAIN st |-> IF \E i \in 1..taken : q[s][i] = x THEN "gone" ELSE st[x]]
               /\ rem' = [rem EXCEPT ![s] = IF cut THEN q[s][taken] ELSE ""]
               /\ q' = [q EXCEPT ![s] = SubSeq(@, taken + 1, Len(@))]
               /\ cons' = [cons EXCEPT ![s] = @ + taken]
               /\ al' = [al EXCEPT ![s] = 0]
               /\ UNCHANGED <<lent, prod>>
SConsume(ss, n, r, sent) ==
  LET all == BytesOf(Group(c, ss)) IN n <= all /\ (r = 1) = (n = all) /\ Drop(ss, n, sent)
SWrite(ss, calls, r, sent) ==
  LET rm == Norm(Group(c, ss))
      all == BytesOf(rm)
      acc == Accepted(calls)
      last == IF calls = <<>> THEN 0 ELSE calls[Len(calls)].r
      hard == last < 0 /\ last # -11
  IN /\ KOk(rm, calls)
     /\ all > 0 => calls # <<>>
     /\ r = (IF hard THEN -1 ELSE IF acc = all THEN 1 ELSE 0)
     /\ IF all = 0 /\ calls = <<>> THEN sent = 0 /\ UNCHANGED <<c, st, lent, q, al, rem, prod, cons>> ELSE Drop(ss, acc, sent)
\* the cut span is handed over once, holding exactly what was not sent
Remnant(s, o, r) ==
  /\ (r = 1) = (rem[s] # "")
  /\ IF r = 1
     THEN /\ c' = Ext(c, o, c[rem[s]]) /\ st' = Ext(st, o, "closed") /\ lent' = Ext(lent, o, 0)
          /\ rem' = [rem EXCEPT ![s] = ""]
     ELSE UNCHANGED <<c, st, lent, rem>>
  /\ UNCHANGED <<q, al, prod, cons>>
Sizes(e) == /\ e.n = Len(q[e.s]) /\ e.p = prod[e.s] /\ e.c = cons[e.s]
            /\ e.live = Cardinality({x \in DOMAIN st : ~IsSpans(x) /\ st[x] # "gone"}) + (IF rem[e.s] = "" THEN 0 ELSE 1)
            /\ UNCHANGED <<c, st, lent, q, al, rem, prod, cons>>
Step(e) ==
  \/ e.e = "SB" /\ NewSpans(e.s)
  \/ e.e = "SA" /\ AddSpan(e.s, e.o, e.r)
  \/ e.e = "ST" /\ Allot(e.s)
  \/ e.e = "SR" /\ Remnant(e.s, e.o, e.r)
  \/ e.e = "SD" /\ st' = [st EXCEPT ![e.s] = "gone"] /\ UNCHANGED <<c, lent, q, al, rem, prod, cons>>
  \/ e.e = "SZ" /\ Sizes(e)
  \/ e.e = "K" /\ SConsume(e.ss, e.n, e.r, e.sent)
  \/ e.e = "W" /\ SWrite(e.ss, e.c, e.r, e.sent)
  \/ /\ \/ e.e = "C" /\ NewChain(e.s)
        \/ e.e = "N" /\ e.ok = 1 /\ NextBuffer(e.s, e.p, e.n, e.bc)
        \/ e.e = "B" /\ BackUp(e.s, e.n, e.bc)
        \/ e.e = "X" /\ Close(e.s, e.bc)
        \/ e.e = "R" /\ Read(e.s, e.k, e.nf, e.v, e.r, e.em, Norm(e.f))
     /\ UNCHANGED xvars
TNext == /\ l <= Len(Traces[tid])
         /\ Step(Traces[tid][l])
         /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
=============================================================================

--------------------------- MODULE SpanStreamModel ---------------------------
(* The algorithm of span_stream.cpp (C08): spans wait in a queue, an allotment *)
(* is a prefix of it, and consuming part of the allotment locates the stopping *)
(* fragment first, then releases whole spans and hands the cut one over.       *)
(* Producers add between any two steps.  Bytes are <<span, offset>>.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes,     \* possible spans: sequences of fragment sizes
          MaxAdds, Cap
VARIABLES q,      \* Seq([id, fr, left]): waiting spans, left = fragments not yet sent
          allot,  \* how many of them are allotted
          rem,    \* the cut span, as Seq of at most one
          n,      \* spans added so far
          out,    \* ghost: bytes consumed, in order
          sent,   \* spans counted as sent
          act
vars == <<q, allot, rem, n, out, sent, act>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE g[1] \o Flat(Tail(g))
Bytes(id, from, k) == [i \in 1..k |-> <<id, from + i - 1>>]

Init == q = <<>> /\ allot = 0 /\ rem = <<>> /\ n = 0 /\ out = <<>> /\ sent = 0 /\ act = [op |-> "init"]

Add(sh) == /\ n < MaxAdds /\ Len(q) < Cap
           /\ q' = Append(q, [id |-> n + 1, fr |-> Shapes[sh]])
           /\ n' = n + 1 /\ act' = [op |-> "add", sh |-> sh]
           /\ UNCHANGED <<allot, rem, out, sent>>
Allot == /\ rem = <<>>
         /\ allot' = Len(q) /\ act' = [op |-> "allot"]
         /\ UNCHANGED <<q, rem, n, out, sent>>

AllotBytes == Sum(Flat([i \in 1..allot |-> q[i].fr]))
AllFrags == Flat([i \in 1..allot |-> q[i].fr])

\* Consume of fragment_input_stream.cpp: the first fragment larger than what is left
RECURSIVE Walk(_, _, _)
Walk(v, k, i) == IF v = <<>> THEN [stop |-> FALSE, i |-> i, n |-> k]
                 ELSE IF k < v[1] THEN [stop |-> TRUE, i |-> i, n |-> k]
                 ELSE Walk(Tail(v), k - v[1], i + 1)
\* SpanStream::Seek: how many spans lie wholly before fragment fi, and the rest of fi
RECURSIVE Locate(_, _, _)
Locate(i, fi, full) == IF i <= allot /\ Len(q[i].fr) <= fi THEN Locate(i + 1, fi - Len(q[i].fr), full + 1)
                       ELSE [full |-> full, fi |-> fi]
SeekFr(fr, fi, pos) == [SubSeq(fr, fi + 1, Len(fr)) EXCEPT ![1] = @ - pos]
Consume(k) ==
  /\ rem = <<>> /\ k <= AllotBytes
  /\ LET w == Walk(AllFrags, k, 0) IN
     IF ~w.stop
     THEN /\ sent' = sent + allot /\ q' = SubSeq(q, allot + 1, Len(q)) /\ rem' = <<>>
          /\ act' = [op |-> "K", n |-> k, done |-> TRUE]
     ELSE LET z == Locate(1, w.i, 0)
              cut == ~(z.fi = 0 /\ w.n = 0)
              taken == z.full + (IF cut THEN 1 ELSE 0)
          IN /\ sent' = sent + z.full
             /\ q' = SubSeq(q, taken + 1, Len(q))
             /\ rem' = IF cut THEN <<[q[taken] EXCEPT !.fr = SeekFr(@, z.fi, w.n)]>> ELSE <<>>
             /\ act' = [op |-> "K", n |-> k, done |-> FALSE]
  /\ out' = out \o SubSeq(Flat([i \in 1..allot |-> Bytes(q[i].id, 0, Sum(q[i].fr))]), 1, k)
  /\ allot' = 0
  /\ UNCHANGED n
\* the owner writes the remainder elsewhere
TakeRemnant == /\ rem # <<>>
               /\ out' = out \o Bytes(rem[1].id, Cardinality({i \in 1..Len(out) : out[i][1] = rem[1].id}), Sum(rem[1].fr))
               /\ rem' = <<>> /\ sent' = sent + 1
               /\ act' = [op |-> "rem"] /\ UNCHANGED <<q, allot, n>>
Next == (\E sh \in DOMAIN Shapes : Add(sh)) \/ Allot \/ (\E k \in 0..AllotBytes : allot > 0 /\ Consume(k)) \/ TakeRemnant
MSpec == Init /\ [][Next]_vars
MView == <<q, allot, rem, n>>

\* bytes leave in order, none twice, none skipped
InOrder == \A i \in 1..(Len(out) - 1) :
              \/ out[i + 1] = <<out[i][1], out[i][2] + 1>>
              \/ out[i + 1][2] = 0 /\ out[i + 1][1] = out[i][1] + 1
Accounted == sent + Len(rem) + Len(q) = n
QueueOrder == \A i \in 1..(Len(q) - 1) : q[i + 1].id = q[i].id + 1
MEmit == PrintT("T" \o ToJson([f |-> <<q, allot, rem, n>>, a |-> act', t |-> <<q', allot', rem', n'>>]))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(<<q, allot, rem, n>>)) ELSE TRUE
=============================================================================

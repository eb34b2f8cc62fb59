----------------------------- MODULE StreamModel -----------------------------
(* The algorithm of Consume (fragment_input_stream.cpp) and Write              *)
(* (vector_write.cpp) over fragment arrays, as the code structures it:         *)
(* streams keep (fragments, fragment index, position); Consume walks them with *)
(* Seek/Clear; Write gathers up to IOV fragments per kernel call.  TLC checks  *)
(* that the algorithm means what FragmentStreams says, for every group in      *)
(* Groups, every consumption point and every kernel answer; the transitions    *)
(* are emitted and replayed on the real code.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxStreams, MaxFrags, MaxSize, IOV, MaxCalls

FragLists == UNION {[1..n -> 0..MaxSize] : n \in 0..MaxFrags}
Groups == UNION {[1..n -> FragLists] : n \in 1..MaxStreams}

VARIABLES cfg,   \* the group as created: Seq(Seq(size))
          s,     \* Seq([fr, fi, pos])
          gone,  \* number of bytes consumed so far
          act
vars == <<cfg, s, gone, act>>

Sum(q) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN 0 ELSE x[1] + F(Tail(x)) IN F(q)
RECURSIVE Flat(_)
Flat(g) == IF g = <<>> THEN <<>> ELSE g[1] \o Flat(Tail(g))
Total(g) == Sum(Flat(g))

\* what ForEachFragment visits, as sizes
Visible(x) == IF x.fi >= Len(x.fr) THEN <<>>
              ELSE <<x.fr[x.fi + 1] - x.pos>> \o SubSeq(x.fr, x.fi + 2, Len(x.fr))
NumFrags(x) == Len(x.fr) - x.fi
Cleared(x) == [fr |-> <<>>, fi |-> 0, pos |-> 0]
Seek(x, i, p) == IF i = 0 THEN [x EXCEPT !.pos = @ + p] ELSE [x EXCEPT !.fi = @ + i, !.pos = p]

\* index of the first visible fragment larger than what is left to consume
RECURSIVE Walk(_, _, _)
Walk(v, n, i) == IF v = <<>> THEN [stop |-> FALSE, i |-> i, n |-> n]
                 ELSE IF n < v[1] THEN [stop |-> TRUE, i |-> i, n |-> n]
                 ELSE Walk(Tail(v), n - v[1], i + 1)

RECURSIVE ConsumeAlg(_, _)
ConsumeAlg(g, n) ==
  IF g = <<>> THEN [g |-> <<>>, done |-> TRUE]
  ELSE LET w == Walk(Visible(g[1]), n, 0) IN
       IF w.stop THEN [g |-> <<Seek(g[1], w.i, w.n)>> \o Tail(g), done |-> FALSE]
       ELSE LET r == ConsumeAlg(Tail(g), w.n) IN [g |-> <<Cleared(g[1])>> \o r.g, done |-> r.done]

Rest(g) == Sum(Flat([i \in 1..Len(g) |-> Visible(g[i])]))

Init == /\ cfg \in Groups
        /\ s = [i \in 1..Len(cfg) |-> [fr |-> cfg[i], fi |-> 0, pos |-> 0]]
        /\ gone = 0
        /\ act = [op |-> "init"]

DoConsume(n) ==
  LET r == ConsumeAlg(s, n) IN
  /\ s' = r.g
  /\ gone' = gone + n
  /\ act' = [op |-> "K", n |-> n, done |-> r.done]
  /\ UNCHANGED cfg

\* Kernel answers: k >= 0 accepts min(k, offered); -1 would block; -2 fails.
\* The fragments offered are the visible ones, IOV at a time.
Answers == UNION {[1..k -> -2..(MaxSize + 1)] : k \in 1..MaxCalls}
RECURSIVE WriteAlg(_, _, _)
WriteAlg(fr, ans, w) ==
  IF fr = <<>> \/ ans = <<>> THEN [w |-> w, err |-> FALSE, used |-> 0, open |-> fr # <<>>]
  ELSE LET k == IF Len(fr) > IOV THEN IOV ELSE Len(fr)
           b == Sum(SubSeq(fr, 1, k))
           a == ans[1]
       IN IF k < IOV /\ b = 0 THEN [w |-> w, err |-> FALSE, used |-> 0, open |-> FALSE]
          ELSE IF a = -2 THEN [w |-> w, err |-> TRUE, used |-> 1, open |-> FALSE]
          ELSE IF a = -1 THEN [w |-> w, err |-> FALSE, used |-> 1, open |-> FALSE]
          ELSE IF a < b THEN [w |-> w + a, err |-> FALSE, used |-> 1, open |-> FALSE]
          ELSE LET r == WriteAlg(SubSeq(fr, k + 1, Len(fr)), Tail(ans), w + b)
               IN [r EXCEPT !.used = @ + 1]

DoWrite(ans) ==
  LET fr == Flat([i \in 1..Len(s) |-> Visible(s[i])])
      r == WriteAlg(fr, ans, 0)
      z == ConsumeAlg(s, r.w)
  IN /\ fr # <<>>
     /\ r.used = Len(ans) /\ ~r.open     \* every answer of the script is used
     /\ s' = z.g
     /\ gone' = gone + r.w
     /\ act' = [op |-> "W", ans |-> ans, res |-> IF r.err THEN -1 ELSE IF z.done THEN 1 ELSE 0]
     /\ UNCHANGED cfg

Next == \/ \E n \in 0..(Total(cfg)) : n <= Rest(s) /\ DoConsume(n)
        \/ \E a \in Answers : DoWrite(a)

MSpec == Init /\ [][Next]_vars
MView == <<cfg, s>>

\* The bytes left are exactly the bytes after the ones consumed ...
Suffix == Rest(s) = Total(cfg) - gone
\* ... in the same places: dropping from the front of the flattened group.
RECURSIVE DropSizes(_, _)
DropSizes(q, n) == IF q = <<>> THEN <<>> ELSE IF q[1] <= n THEN DropSizes(Tail(q), n - q[1]) ELSE <<q[1] - n>> \o Tail(q)
NonZero(q) == SelectSeq(q, LAMBDA x : x # 0)
SameBytes == NonZero(Flat([i \in 1..Len(s) |-> Visible(s[i])])) = NonZero(DropSizes(Flat(cfg), gone))
CountsAgree == \A i \in 1..Len(s) : NumFrags(s[i]) = Len(Visible(s[i]))
Honest == act.op = "K" => (act.done = (Rest(s) = 0))
HonestW == act.op = "W" => (act.res # -1 => (act.res = 1) = (Rest(s) = 0))

MEmit == PrintT("T" \o ToJson([f |-> <<cfg, s>>, a |-> act', t |-> <<cfg, s>>']))
MInitEmit == IF act.op = "init" THEN PrintT("I" \o ToJson(<<cfg, s>>)) ELSE TRUE
=============================================================================

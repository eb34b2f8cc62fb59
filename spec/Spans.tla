------------------------------- MODULE Spans ----------------------------------
(* Spans of one tracer (C24-C26): what each of them is told, what it passes on  *)
(* to spans that refer to it, and the one record it leaves.  Values, names and  *)
(* identifiers are opaque; times are pairs <<seconds, nanoseconds>>.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
VARIABLES legacy,   \* which of the two tracers (1: the one for custom transports)
          delta,    \* system clock minus steady clock, in seconds
          ctxs,     \* contexts extracted from carriers
          spans,    \* spans started
          seen      \* trace and span identifiers known so far
svars == <<legacy, delta, ctxs, spans, seen>>

Prio == "73616d706c696e672e7072696f72697479"      \* "sampling.priority" in hexadecimal
Decision(v) == IF v = "i0" THEN 0 ELSE 1           \* of a priority that is an integer
Add(t, d) == <<t[1] + d, t[2]>>
\* whole microseconds from a to b; -1 where nothing is said about them
Micros(a, b) ==
  LET borrow == IF b[2] < a[2] THEN 1 ELSE 0
      s == b[1] - a[1] - borrow
      n == b[2] - a[2] + borrow * 1000000000
  IN IF s < 0 \/ s > 1999 THEN -1 ELSE s * 1000000 + n \div 1000

Empty == [k \in {} |-> ""]
Pairs(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]

\* ---- what is known of a context, and what a start reads from those it refers to
IsContext(r) == r.k \in {"x", "s"}
Of(r) == IF r.k = "x" THEN ctxs[r.to] ELSE spans[r.to]
Merge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> (IF k \in DOMAIN a THEN a[k] ELSE {}) \cup (IF k \in DOMAIN b THEN {b[k]} ELSE {})]
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "2c" \o Joined(Tail(s))    \* 2c: a comma

LastPriority(tags) == LET P == {i \in DOMAIN tags : tags[i][1] = Prio} IN IF P = {} THEN <<>> ELSE <<Decision(tags[Max(P)][2])>>

\* the sampling decision of a new span: f is the decision of each context it refers to
Sampled(f, tags) ==
  LET p == LastPriority(tags) IN
  IF p # <<>> THEN p[1] ELSE IF f = <<>> THEN 1 ELSE IF \E i \in DOMAIN f : f[i] = 1 THEN 1 ELSE 0

\* start times: a missing clock is taken from the other one
StartTimes(sys, ste, now) ==
  IF sys = <<>> /\ ste = <<>> THEN [sys |-> Add(now, delta), ste |-> now]
  ELSE IF sys = <<>> THEN [sys |-> Add(ste, delta), ste |-> ste]
  ELSE IF ste = <<>> THEN [sys |-> sys, ste |-> Add(sys, -delta)]
  ELSE [sys |-> sys, ste |-> ste]

\* the span o (name, refs, tags, sys, ste, now) describes, given the decisions and the
\* possible baggage read from its references, and ids = [hi, lo, sid, bag] as chosen
Started(o, f, poss, ids) ==
  LET V == SelectSeq(o.refs, IsContext)
      st == StartTimes(o.sys, o.ste, o.now)
  IN [name |-> o.name, tags |-> o.tags, logs |-> <<>>, fin |-> FALSE, loose |-> FALSE,
      refs |-> [i \in DOMAIN V |-> <<V[i].r, Of(V[i]).lo, Of(V[i]).sid>>],
      hi |-> ids.hi, lo |-> ids.lo, sid |-> ids.sid, bag |-> ids.bag,
      fl |-> Sampled(f, o.tags), start |-> st.sys, steady |-> st.ste,
      ts |-> Joined(SelectSeq([i \in DOMAIN V |-> Of(V[i]).ts], LAMBDA x : x # ""))]
IdsRight(o, poss, ids) ==
  LET V == SelectSeq(o.refs, IsContext) IN
  /\ IF V = <<>> THEN ids.lo \notin seen ELSE ids.hi = Of(V[1]).hi /\ ids.lo = Of(V[1]).lo
  /\ ids.sid \notin seen \cup {ids.lo}
  /\ DOMAIN ids.bag = DOMAIN poss /\ \A k \in DOMAIN poss : ids.bag[k] \in poss[k]

\* ---- changes.  After the end, the record is out of reach; the new tracer's span
\* ignores them altogether, nothing is said of what the other one then reports
AfterEnd(s, touches) == IF legacy = 1 /\ touches THEN [s EXCEPT !.loose = TRUE] ELSE s
Named(s, n) == IF s.fin THEN s ELSE [s EXCEPT !.name = n]
Tagged(s, k, v) == IF s.fin THEN AfterEnd(s, k = Prio)
                   ELSE [s EXCEPT !.tags = Append(@, <<k, v>>), !.fl = IF k = Prio THEN Decision(v) ELSE @]
Bagged(s, k, v) == IF s.fin THEN AfterEnd(s, TRUE) ELSE [s EXCEPT !.bag = (k :> v) @@ @]
Logged(s, at, f) == IF s.fin THEN s ELSE [s EXCEPT !.logs = Append(@, <<at, f>>)]
Ended(s) == [s EXCEPT !.fin = TRUE]
\* the record a span leaves when it ends at steady time `at` with further logs: none, or one
Record(s, at, logs) ==
  IF s.fin \/ s.fl = 0 THEN <<>>
  ELSE <<[name |-> s.name, tags |-> s.tags, logs |-> s.logs \o logs, refs |-> s.refs, lo |-> s.lo, sid |-> s.sid,
          bag |-> s.bag, start |-> s.start, dur |-> Micros(s.steady, at)]>>
==============================================================================

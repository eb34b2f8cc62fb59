------------------------------ MODULE SpanModel -------------------------------
(* Every history of a few spans: the ways they start, change and end.  One step *)
(* is one whole call.  Checked: one record for a span that ends sampled, none   *)
(* otherwise, and nothing moves after the end (C24); decisions (C25); identity   *)
(* (C26).  Its steps are replayed into both tracers.                            *)
EXTENDS Spans, Json
CONSTANTS NSpans, Tags, MaxRefs
VARIABLES log,       \* records left, in order: <<span, record>>
          frozen,    \* what a span was when it ended
          act
mvars == <<legacy, delta, ctxs, spans, seen, log, frozen, act>>

\* contexts given: one sampled, one not, both with baggage
Given == [i \in 1..2 |-> [hi |-> "h" \o ToString(i), lo |-> "l" \o ToString(i), sid |-> "s" \o ToString(i), fl |-> 2 - i,
                          ts |-> IF i = 1 THEN "aa" ELSE "", bag |-> ("k" :> ToString(i)), loose |-> FALSE]]
Init == /\ legacy \in {0, 1} /\ delta = 1 /\ ctxs = Given /\ spans = <<>> /\ seen = {"l1", "s1", "l2", "s2"}
        /\ log = <<>> /\ frozen = <<>> /\ act = [op |-> "init"]

Targets == [k : {"n", "f"}, to : {0}] \cup [k : {"x"}, to : {1, 2}] \cup [k : {"s"}, to : {i \in DOMAIN spans : ~spans[i].loose}]
Refs(n) == {<<>>} \cup {<<[r |-> "c", k |-> x.k, to |-> x.to]>> : x \in Targets}
           \cup (IF n = 2 THEN {<<[r |-> "f", k |-> x.k, to |-> x.to], [r |-> "c", k |-> y.k, to |-> y.to]>> : x \in Targets, y \in Targets} ELSE {})
Read(o, i) == Of(SelectSeq(o.refs, IsContext)[i])
RECURSIVE Poss(_, _)
Poss(o, i) == IF i = 0 THEN Empty ELSE Merge(Poss(o, i - 1), Read(o, i).bag)
Start(refs, tags) ==
  LET id == Len(spans) + 1
      o == [refs |-> refs, tags |-> tags, name |-> "a", sys |-> <<>>, ste |-> <<>>, now |-> <<0, 0>>]
      n == Len(SelectSeq(refs, IsContext))
      poss == Poss(o, n)
      ids == [hi |-> IF n = 0 THEN "new" ELSE Read(o, 1).hi, lo |-> IF n = 0 THEN "t" \o ToString(id) ELSE Read(o, 1).lo,
              sid |-> "i" \o ToString(id), bag |-> [k \in DOMAIN poss |-> CHOOSE v \in poss[k] : TRUE]]
  IN /\ id <= NSpans
     /\ spans' = Append(spans, Started(o, [i \in 1..n |-> Read(o, i).fl], poss, ids))
     /\ seen' = seen \cup {ids.lo, ids.sid}
     /\ Assert(IdsRight(o, poss, ids), "identifiers")
     /\ act' = [op |-> "start", id |-> id, refs |-> refs, tags |-> tags]
     /\ UNCHANGED <<legacy, delta, ctxs, log, frozen>>
Change(op, i, s, k) ==
  /\ spans' = [spans EXCEPT ![i] = s]
  /\ act' = [op |-> op, id |-> i, k |-> k]
  /\ UNCHANGED <<legacy, delta, ctxs, seen, log, frozen>>
End(op, i) ==
  /\ spans' = [spans EXCEPT ![i] = Ended(spans[i])]
  /\ log' = (IF Record(spans[i], <<0, 0>>, <<>>) = <<>> THEN log ELSE Append(log, <<i, Record(spans[i], <<0, 0>>, <<>>)[1]>>))
  /\ frozen' = IF spans[i].fin THEN frozen ELSE (i :> spans[i]) @@ frozen
  /\ act' = [op |-> op, id |-> i, k |-> ""]
  /\ UNCHANGED <<legacy, delta, ctxs, seen>>
Next == \/ \E r \in Refs(MaxRefs), tg \in {<<>>} \cup {<<t>> : t \in Tags} : Start(r, tg)
        \/ \E i \in DOMAIN spans :
             \/ \E t \in Tags : Len(spans[i].tags) < 2 /\ Change("tag", i, Tagged(spans[i], t[1], t[2]), t[2])
             \/ Change("name", i, Named(spans[i], "b"), "")
             \/ Change("bag", i, Bagged(spans[i], "k", "9"), "")
             \/ End("finish", i)
MSpec == Init /\ [][Next]_mvars
MView == <<legacy, spans, log, frozen>>
\* a state by name, for the replay
Name == <<legacy, [i \in DOMAIN spans |-> LET x == spans[i] IN
  <<x.name, x.tags, x.refs, x.lo, IF "k" \in DOMAIN x.bag THEN x.bag["k"] ELSE "", x.fl, x.fin, x.loose>>], [j \in DOMAIN log |-> log[j][1]]>>
MEmit == PrintT("T" \o ToJson([f |-> Name, a |-> act' @@ [legacy |-> legacy], t |-> Name']))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(Name))

\* C24: exactly one record of a span that ended sampled, none of any other
Once == \A i \in DOMAIN spans :
  Cardinality({j \in DOMAIN log : log[j][1] = i}) = (IF i \in DOMAIN frozen /\ frozen[i].fl = 1 THEN 1 ELSE 0)
\* C24: the record is what the span was when it ended
AsItWas == \A j \in DOMAIN log : LET f == frozen[log[j][1]] IN
  log[j][2].tags = f.tags /\ log[j][2].name = f.name /\ log[j][2].bag = f.bag
\* C26: identities do not change, children are of the trace they refer to
Identity == \A i \in DOMAIN spans : /\ i \in DOMAIN frozen => frozen[i].lo = spans[i].lo /\ frozen[i].sid = spans[i].sid
                                    /\ \A j \in DOMAIN spans : i # j => spans[i].sid # spans[j].sid
                                    /\ (spans[i].refs # <<>> => spans[i].lo = spans[i].refs[1][2])
\* C25: the last priority decides
LastWins == \A i \in DOMAIN spans : LET p == LastPriority(spans[i].tags) IN p # <<>> => spans[i].fl = p[1]
Tags2 == {<<Prio, "i0">>, <<Prio, "i1">>}
Tags1 == {<<Prio, "i0">>}
TagsMC == {<<Prio, "i0">>, <<Prio, "i1">>, <<"61", "s78">>}
==============================================================================

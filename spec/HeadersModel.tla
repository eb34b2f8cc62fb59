----------------------------- MODULE HeadersModel -----------------------------
(* The headers a tracer with a list of formats finds, one format after the      *)
(* other, and what it makes of them (MSpec, each outcome replayed on the code); *)
(* and the round trip of boundary values through every format (RSpec).          *)
EXTENDS Headers, Json
CONSTANTS MaxModes, Full
VARIABLES modes, single, have, out
vars == <<modes, single, have, out>>
Order == <<"l", "b", "e", "t", "c">>
Formats == Range(Order)

D(n) == Zeros(16 - Len(n)) \o n
Place(f) == CHOOSE i \in 1..5 : Order[i] = f
\* every format's headers spell a context of their own
Ctx(f) == [hi |-> IF f \in {"l", "e"} THEN Zeros(16) ELSE D(<<Place(f)>>), lo |-> D(<<1, Place(f)>>), sid |-> D(<<2, Place(f)>>), fl |-> 1, ts |-> <<>>, bag |-> <<>>]
Lists == UNION {[1..n -> Formats] : n \in 0..MaxModes}
Spoilt(w) == [i \in DOMAIN w |-> <<w[i][1], IF i = 1 THEN <<33>> ELSE w[i][2]>>]
Part(f) == LET w == Write(f, Ctx(f)) IN CASE have[f] = "absent" -> <<>> [] have[f] = "good" -> w [] have[f] = "bad" -> Spoilt(w)
Carrier == Part("l") \o Part("b") \o Part("e") \o Part("t") \o Part("c")

Init == /\ modes \in Lists /\ single \in BOOLEAN
        /\ have = [f \in Formats |-> "absent"] /\ out = "idle"
Put(f, k) == /\ out = "idle" /\ \A g \in Formats : Place(g) >= Place(f) => have[g] = "absent"
             /\ have' = [have EXCEPT ![f] = k] /\ UNCHANGED <<modes, single, out>>
Tries == Tried(Configured(modes, single))
Outcome(r) == IF r.st = "good" THEN CHOOSE f \in Formats : Spells(r, Ctx(f).hi, Ctx(f).lo, Ctx(f).sid, 1, <<>>, <<>>) ELSE r.st
Extract == /\ out = "idle" /\ out' = Outcome(First(Tries, Carrier, FALSE, "n"))
           /\ UNCHANGED <<modes, single, have>>
Next == (\E f \in Formats, k \in {"good", "bad"} : Put(f, k)) \/ Extract
MSpec == Init /\ [][Next]_vars
MEmit == out' = out \/ PrintT("T" \o ToJson([m |-> modes, s |-> single, h |-> [i \in 1..5 |-> have[Order[i]]], o |-> out']))

Present == SelectSeq(Tries, LAMBDA f : have[f] # "absent")
\* nothing present, nothing found; else the first one present decides, good or bad
InOrder == out # "idle" =>
  IF Present = <<>> THEN out = "absent" ELSE out = (IF have[Present[1]] = "bad" THEN "bad" ELSE Present[1])
\* a context comes only from a format that was asked for, or from lightstep's headers in place of envoy's
ConfiguredOnly == out \in Formats =>
  IF single THEN out \in {"e", "l"}
  ELSE out \in Range(modes) \/ (modes = <<>> /\ out = "l") \/ (out = "l" /\ "e" \in Range(modes))

\* ---- round trips: a context is chosen bit by bit, written and read
Ids == {D(<<1>>), D(<<15>>), D(<<1, 0>>), [i \in 1..16 |-> 15], [i \in 1..16 |-> IF i = 1 THEN 8 ELSE 0], [i \in 1..16 |-> IF i = 1 THEN 7 ELSE 15], [i \in 1..16 |-> i - 1],
        D([i \in 1..15 |-> 15]), D(<<13, 14, 10, 13>>), [i \in 1..16 |-> 9], Zeros(16)}
Bags == {<<>>, <<<<<<97>>, <<>>>>>>, <<<<<<75, 101>>, <<195, 169>>>>, <<<<98>>, <<44, 61>>>>>>}
Rest == IF Full THEN {<<fl, ts, bag>> : fl \in {0, 1}, ts \in {<<>>, <<97, 61, 98>>}, bag \in Bags}
        ELSE {<<0, <<>>, <<>>>>, <<1, <<97, 61, 98>>, <<<<<<75, 101>>, <<195, 169>>>>>>>>}
RInit == /\ \E hi \in {Zeros(16), D(<<1>>), [i \in 1..16 |-> 15]}, lo \in Ids : modes = <<hi, lo>>
         /\ single = FALSE /\ have = <<>> /\ out = "idle"
RNext == /\ out = "idle" /\ \E sid \in Ids, r \in Rest :
              have' = [hi |-> modes[1], lo |-> modes[2], sid |-> sid, fl |-> r[1], ts |-> r[2], bag |-> r[3]]
         /\ out' = "done" /\ UNCHANGED <<modes, single>>
RSpec == RInit /\ [][RNext]_vars
Up(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Join(c) == Write("l", c) \o Write("b", c) \o Write("e", c) \o Write("t", c) \o Write("c", c)
BagHeaders(c) == [i \in DOMAIN c.bag |-> <<Str.bag \o c.bag[i][1], c.bag[i][2]>>]
RoundTrip == out = "done" =>
  LET c == have
      H == Join(c) \o BagHeaders(c)
      U == [i \in DOMAIN H |-> <<Up(H[i][1]), H[i][2]>>]
  IN \A f \in Formats :
       /\ IsWritten(f, ReadAs(f, H, FALSE, "n"), c, TRUE)
       /\ IsWritten(f, ReadAs(f, U, TRUE, "n"), c, TRUE)
       /\ IsWritten(f, ReadAs(f, Write(f, c) \o BagHeaders(c), TRUE, "n"), c, TRUE)
       /\ \A g \in Formats \ {f} : ReadAs(g, Write(f, c), TRUE, "n").st = "absent"
==============================================================================

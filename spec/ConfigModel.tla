------------------------------- MODULE ConfigModel -------------------------------
(* Documents setting by setting, every value class of every setting; each one is      *)
(* replayed on the code (MSpec).  Tracers from every combination of options (BSpec).  *)
EXTENDS Config, Json, TLC, SequencesExt
CONSTANTS MaxSettings
VARIABLES doc, out
vars == <<doc, out>>

s(h) == [k |-> "s", v |-> h]
n(a, b) == [k |-> "n", v |-> <<a, b>>]
bb(x) == [k |-> "b", v |-> x]
l(x) == [k |-> "l", v |-> x]
o(x) == [k |-> "o", v |-> x]
x(t) == [k |-> "x", v |-> t]
m(t) == [k |-> "m", v |-> t]
Ep(h, p) == o(<<<<"host", h>>, <<"port", p>>>>)
TextValues == {s("61"), s(""), s("c3a92022"), Null, n(0, 5), bb(1), l(<<>>), o(<<>>)}
SwitchValues == {bb(0), bb(1), Null, n(0, 1), l(<<>>), s("74727565")}
CountValues == {n(0, 0), n(0, 1), n(0, 65535), n(1, 0), n(1, 1), n(65535, 65535), Null, x("-1"), x("4294967296"), x("1.5"), bb(1), l(<<>>), m("8e1")}
ModeValues == {l(<<>>), Null, l(<<s("6233")>>), l(<<s("656e766f79"), s("6233"), s("656e766f79")>>), l(<<s("74726163655f636f6e74657874"), s("636c6f75645f7472616365"), s("6c6967687473746570")>>),
               l(<<s("4233")>>), l(<<s("6233"), s("")>>), l(<<n(0, 1)>>), l(<<s("6233"), bb(1)>>), s("6233"), n(0, 1), o(<<>>)}
TagValues == {o(<<>>), Null, o(<<<<"61", s("62")>>>>), o(<<<<"61", s("")>>, <<"", s("63")>>, <<"6c69676874737465702e7472616365725f706c6174666f726d", s("64")>>>>), o(<<<<"61", n(0, 1)>>>>),
              o(<<<<"61", s("62")>>, <<"62", bb(0)>>>>), l(<<>>), s("61"), bb(0), o(<<<<"61", Null>>>>)}
EndpointValues == {l(<<>>), Null, l(<<Ep(s("61"), n(0, 1))>>), l(<<Ep(s("61"), n(0, 65535)), Ep(s("62"), n(0, 80)), Ep(s("61"), n(0, 65535))>>), l(<<Ep(s(""), n(0, 9))>>),
                   l(<<Ep(s("61"), n(0, 0))>>), l(<<Ep(s("61"), n(1, 0))>>), l(<<Ep(s("61"), n(1, 80))>>), l(<<Ep(s("61"), n(0, 80)), Ep(s("62"), n(0, 0))>>), l(<<Ep(s("61"), Null)>>),
                   l(<<o(<<<<"host", s("61")>>>>)>>), l(<<o(<<<<"port", n(0, 1)>>>>)>>), l(<<Ep(n(0, 1), n(0, 1))>>), l(<<s("61")>>), n(0, 1), bb(1), l(<<Ep(s("61"), x("-1"))>>)}
Values(name) == CASE name \in Texts -> TextValues [] name \in Switches -> SwitchValues [] name \in Counts -> CountValues
                  [] name = "propagation_modes" -> ModeValues [] name = "tags" -> TagValues [] name = "satellite_endpoints" -> EndpointValues
                  [] OTHER -> {s("61"), n(0, 1), Null}

Outcome(d) == LET w == DocVerdict(d) IN [is |-> w, opt |-> IF w = "good" THEN [name \in Settings |-> OptionOf(d, name)] ELSE <<>>]
Default == Outcome(<<>>)
Init == doc = <<>> /\ out = Default
Add(name, v) == /\ Len(doc) < MaxSettings /\ Named(doc, name) = {}
                /\ doc' = Append(doc, <<name, v>>) /\ out' = Outcome(doc')
MNext == \E name \in Settings \cup {"colector_port"} : \E v \in Values(name) : Add(name, v)
MSpec == Init /\ [][MNext]_vars
MEmit == PrintT("T" \o ToJson(doc'))
MInitEmit == PrintT("I")

\* the order of settings does not matter; one bad setting refuses the whole; settings do not reach into others
OrderFree == out = Outcome(Reverse(doc))
Whole == (out.is = "bad") = (\E i \in DOMAIN doc : Verdict(doc[i][1], doc[i][2]) = "bad")
Apart == out.is = "good" => \A name \in Settings : IF Named(doc, name) = {} THEN out.opt[name] = Default.opt[name] ELSE out.opt[name] = Outcome(<<doc[CHOOSE i \in Named(doc, name) : TRUE]>>).opt[name]
NothingIsDefault == (\A i \in DOMAIN doc : doc[i][2].k = "z") /\ Named(doc, "colector_port") = {} => out = Default

\* ---- tracers
BInit == doc = <<>> /\ out = "idle"
BNext == /\ out = "idle"
         /\ \E t \in {"s", "a", "l", "p", "n"}, thread \in {0, 1}, stream \in {0, 1}, plain \in {0, 1}, component \in {"", "61"}, tags \in {0, 1, 2, 3} :
              doc' = <<t, thread, stream, plain, component, tags>> /\ out' = Kind(t, thread, stream, plain)
BSpec == BInit /\ [][BNext]_vars
\* with a thread of its own nobody else's loop is asked for; without one the user's transporter is
NeverWithoutTransport == out \in {"now", "legacy"} => doc[1] \in {"s", "a", "l"} \/ (doc[3] = 1 /\ doc[4] = 1)
OneMakerEach == out = "legacy" => doc[1] \in {"s", "l"} /\ (doc[1] = "s") = (doc[2] = 1)
===================================================================================

--------------------------------- MODULE Config ---------------------------------
(* What a JSON document makes of a tracer's options (C36), and what a tracer made    *)
(* of options is and reports (C38).  A document is a sequence of settings, each a    *)
(* name and a value: k is its kind - s text (hexadecimal), n a whole number below    *)
(* 2^32 as <<high, low>> halves, x any other number, m a whole number written with   *)
(* an exponent, b a truth value, z null, l a list, o an object.                      *)
EXTENDS Naturals, Sequences, FiniteSets

Texts == {"component_name", "access_token", "collector_host", "ssl_root_certificates"}
Switches == {"collector_plaintext", "use_single_key_propagation", "use_stream_recorder", "verbose"}
Counts == {"collector_port", "max_buffered_spans", "reporting_period", "report_timeout"}
Others == {"satellite_endpoints", "propagation_modes", "tags"}
Settings == Texts \cup Switches \cup Counts \cup Others

Satellite == "636f6c6c6563746f722e6c69676874737465702e636f6d"     \* collector.lightstep.com
DefaultText(n) == IF n = "collector_host" THEN Satellite ELSE ""
DefaultCount(n) == CASE n = "collector_port" -> <<0, 443>> [] n = "max_buffered_spans" -> <<0, 2000>>
                     [] n = "reporting_period" -> <<7, 41248>> [] n = "report_timeout" -> <<76, 19264>>   \* 0.5 s and 5 s in microseconds
DefaultEndpoints == <<<<Satellite, 80>>>>
NoMode == "none"
ModeOf(h) == CASE h = "6c6967687473746570" -> "lightstep" [] h = "6233" -> "b3" [] h = "656e766f79" -> "envoy"
               [] h = "74726163655f636f6e74657874" -> "trace_context" [] h = "636c6f75645f7472616365" -> "cloud_trace" [] OTHER -> NoMode

All(s, P(_)) == \A i \in DOMAIN s : P(s[i])
Some(s, P(_)) == \E i \in DOMAIN s : P(s[i])
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "loose" \in S THEN "loose" ELSE "good"

\* good: to be applied; bad: the document is to be refused; loose: readings the
\* documentation does not settle, refused or applied
ModeVerdict(v) == CASE v.k = "s" -> IF ModeOf(v.v) = NoMode THEN "bad" ELSE "good" [] v.k \in {"z", "l"} -> "loose" [] OTHER -> "bad"
TagVerdict(t) == CASE t[2].k = "s" -> "good" [] t[2].k = "z" -> "loose" [] OTHER -> "bad"
Field(o, n) == {i \in DOMAIN o : o[i][1] = n}
One(o, n) == o[CHOOSE i \in Field(o, n) : TRUE][2]
PortVerdict(v) == CASE v.k = "n" -> (IF v.v[1] = 0 /\ v.v[2] > 0 THEN "good" ELSE "bad") [] v.k \in {"s", "m"} -> "loose" [] OTHER -> "bad"
HostVerdict(v) == CASE v.k = "s" -> "good" [] v.k = "z" -> "loose" [] OTHER -> "bad"
EndpointVerdict(e) ==
  IF e.k = "z" THEN "loose" ELSE IF e.k # "o" THEN "bad"
  ELSE Worst({IF Field(e.v, "port") = {} THEN "bad" ELSE PortVerdict(One(e.v, "port")),
              IF Field(e.v, "host") = {} THEN "loose" ELSE HostVerdict(One(e.v, "host")),
              IF \E i \in DOMAIN e.v : e.v[i][1] \notin {"host", "port"} THEN "loose" ELSE "good"})
Each(s, V(_)) == Worst({V(s[i]) : i \in DOMAIN s})
Verdict(n, v) ==
  CASE n \notin Settings -> "loose"
    [] v.k = "z" -> "good"
    [] n \in Texts -> (IF v.k = "s" THEN "good" ELSE "bad")
    [] n \in Switches -> (CASE v.k = "b" -> "good" [] v.k = "s" -> "loose" [] OTHER -> "bad")
    [] n \in Counts -> (CASE v.k = "n" -> (IF n = "collector_port" /\ v.v[1] > 0 THEN "bad" ELSE "good") [] v.k \in {"s", "m"} -> "loose" [] OTHER -> "bad")
    [] n = "propagation_modes" -> (CASE v.k = "l" -> Each(v.v, ModeVerdict) [] v.k = "s" -> "loose" [] OTHER -> "bad")
    [] n = "tags" -> (CASE v.k = "o" -> Each(v.v, TagVerdict) [] OTHER -> "bad")
    [] n = "satellite_endpoints" -> (CASE v.k = "l" -> Each(v.v, EndpointVerdict) [] v.k = "o" -> "loose" [] OTHER -> "bad")

Named(doc, n) == {i \in DOMAIN doc : doc[i][1] = n}
DocVerdict(doc) == Worst({Verdict(doc[i][1], doc[i][2]) : i \in DOMAIN doc} \cup (IF \E i, j \in DOMAIN doc : i < j /\ doc[i][1] = doc[j][1] THEN {"loose"} ELSE {"good"}))

\* the value a setting gives its option; given nothing, null or zero, the default stays
Null == [k |-> "z", v |-> 0]
Of(doc, n) == IF Named(doc, n) = {} THEN Null ELSE doc[CHOOSE i \in Named(doc, n) : TRUE][2]
TextOf(doc, n) == LET v == Of(doc, n) IN IF v.k = "z" THEN DefaultText(n) ELSE IF v.v = "" THEN DefaultText(n) ELSE v.v
SwitchOf(doc, n) == LET v == Of(doc, n) IN IF v.k = "z" THEN 0 ELSE v.v
CountOf(doc, n) == LET v == Of(doc, n) IN IF v.k = "z" THEN DefaultCount(n) ELSE IF v.v = <<0, 0>> THEN DefaultCount(n) ELSE v.v
ModesOf(doc) == LET v == Of(doc, "propagation_modes") IN IF v.k = "z" THEN <<>> ELSE [i \in DOMAIN v.v |-> ModeOf(v.v[i].v)]
EndpointsOf(doc) == LET v == Of(doc, "satellite_endpoints") IN
  IF v.k = "z" THEN DefaultEndpoints ELSE IF v.v = <<>> THEN DefaultEndpoints ELSE [i \in DOMAIN v.v |-> <<One(v.v[i].v, "host").v, One(v.v[i].v, "port").v[2]>>]
TagsOf(doc) == LET v == Of(doc, "tags") IN IF v.k = "z" THEN {} ELSE {<<v.v[i][1], v.v[i][2].v>> : i \in DOMAIN v.v}
OptionOf(doc, n) == CASE n \in Texts -> TextOf(doc, n) [] n \in Switches -> SwitchOf(doc, n) [] n \in Counts -> CountOf(doc, n)
                      [] n = "propagation_modes" -> ModesOf(doc) [] n = "satellite_endpoints" -> EndpointsOf(doc) [] n = "tags" -> TagsOf(doc)

\* options o, as recorded, are what the document says of the setting n
SetTo(o, doc, n) == IF n = "tags" THEN {o.tags[i] : i \in DOMAIN o.tags} = TagsOf(doc) /\ Len(o.tags) = Cardinality(TagsOf(doc))
                    ELSE o[n] = OptionOf(doc, n)
Settled(doc, n) == \A i \in Named(doc, n) : Verdict(n, doc[i][2]) = "good" /\ Cardinality(Named(doc, n)) = 1
Applied(o, doc) == o.rest = 1 /\ \A n \in Settings : Settled(doc, n) => SetTo(o, doc, n)

-----------------------------------------------------------------------------------
(* Tracers: t is the kind of transporter given (s synchronous, a asynchronous,       *)
(* l legacy asynchronous, p of no kind, n none; the checked build is without gRPC).  *)
Kind(t, thread, stream, plain) ==
  IF thread = 0 THEN (CASE t = "a" -> "now" [] t = "l" -> "legacy" [] OTHER -> "none")
  ELSE IF stream = 1 THEN (IF plain = 1 /\ t = "n" THEN "now" ELSE "none")
  ELSE IF t = "s" THEN "legacy" ELSE "none"

ComponentKey == "6c69676874737465702e636f6d706f6e656e745f6e616d65"     \* lightstep.component_name
\* a tracer's own tags win over the user's of the same name; the user's component tag over the option
TracerTags(defaults, tags, component, program) ==
  LET d == {defaults[i] : i \in DOMAIN defaults}
      u == {x \in {tags[i] : i \in DOMAIN tags} : ~\E y \in d : y[1] = x[1]}
  IN d \cup u \cup (IF \E x \in u : x[1] = ComponentKey THEN {} ELSE {<<ComponentKey, "s" \o (IF component = "" THEN program ELSE component)>>})
===================================================================================

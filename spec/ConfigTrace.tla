------------------------------- MODULE ConfigTrace -------------------------------
(* Recorded configurations and tracers (C36, C38).                                   *)
EXTENDS Config, TraceKit
VARIABLES tid, l, ids
TInit == tid \in 1..NTraces /\ l = 1 /\ ids = {}

Refused(e) == e.res = "err" /\ e.code = 1
Json(e) == LET v == DocVerdict(e.doc) IN
  IF e.syntax = 0 \/ v = "bad" THEN Refused(e)
  ELSE \/ e.res = "ok" /\ Applied(e.opt, e.doc)
       \/ v = "loose" /\ Refused(e)
\* a tracer or an error, never a null tracer
Factory(e) == LET v == DocVerdict(e.doc) IN
  IF e.syntax = 0 \/ v = "bad" THEN Refused(e)
  ELSE \/ v = "loose" /\ (Refused(e) \/ e.res = "ok")
       \/ v # "loose" /\ IF Kind("n", 1, SwitchOf(e.doc, "use_stream_recorder"), SwitchOf(e.doc, "collector_plaintext")) = "none" THEN Refused(e) ELSE e.res = "ok"

Concat(rs) == FoldLeft(LAMBDA a, r : a \o r.spans, <<>>, rs)
Made(e) ==
  LET k == Kind(e.t, e.thread, e.stream, e.plain) IN
  IF k = "none" THEN e.made = 0 /\ e.logged = 1 /\ e.reports = <<>>
  ELSE /\ e.made = 1 /\ e.legacy = (IF k = "legacy" THEN 1 ELSE 0) /\ (e.t # "n" => e.logged = 0)
       /\ e.dead = (IF e.t = "n" THEN 0 ELSE 1)
       /\ e.t # "n" => Concat(e.reports) = e.names
       /\ \A i \in DOMAIN e.reports : LET r == e.reports[i] IN
            /\ r.good = 1 /\ r.token = e.token /\ r.id = e.reports[1].id /\ r.id \notin ids
            /\ {r.tags[j] : j \in DOMAIN r.tags} = TracerTags(e.defaults, e.tags, e.component, e.program)
            /\ Cardinality({r.tags[j][1] : j \in DOMAIN r.tags}) = Len(r.tags)
Step(e) ==
  \/ e.e = "json" /\ Json(e) /\ ids' = ids
  \/ e.e = "fac" /\ Factory(e) /\ ids' = ids
  \/ e.e = "make" /\ Made(e) /\ ids' = ids \cup {e.reports[i].id : i \in DOMAIN e.reports}
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l, ids>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
===================================================================================

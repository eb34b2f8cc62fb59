---------------------------- MODULE HeadersTrace ------------------------------
(* Judges recorded injections and extractions (C27, C28) against Headers.       *)
EXTENDS Headers, TraceKit
VARIABLES modes,   \* the formats configured, in order
          ctx,     \* the context to be injected
          tid, l
tvars == <<modes, ctx, tid, l>>
Ev == Traces[tid][l]

TInit == /\ tid \in 1..NTraces /\ l = 2 /\ Traces[tid][1].e = "new"
         /\ modes = Configured(Traces[tid][1].modes, Traces[tid][1].single = 1)
         /\ ctx = [none |-> TRUE]

BagSet(b) == {<<b[i][1], b[i][2]>> : i \in DOMAIN b}
SameCtx(a, b) == a.hi = b.hi /\ a.lo = b.lo /\ a.sid = b.sid /\ a.fl = b.fl /\ a.ts = b.ts /\ BagSet(a.bag) = BagSet(b.bag)
Whole(g) == "hi" \in DOMAIN g
Context(e) == /\ e.e = "ctx" /\ Whole(e.got)
              /\ e.kind \in {"i", "m"} => SameCtx(e.given, e.got)
              /\ ctx' = e.got /\ UNCHANGED modes

\* what was injected spells the context in every configured format, and in no other
AllFormats == {"l", "b", "e", "t", "c"}
Complete(H) ==
  \A f \in AllFormats : \A ci \in BOOLEAN :
    IF f \in Range(Injected(modes)) THEN IsWritten(f, ReadAs(f, H, ci, "n"), ctx, TRUE) ELSE ReadAs(f, H, ci, "n").st = "absent"
BinaryRight(r) == r.st \in {"good", "either"} /\ r.T = {<<Zeros(16), ctx.lo>>} /\ r.S = {ctx.sid} /\ r.F = {ctx.fl} /\ r.bag = LowerBag(ctx.bag)
Inject(e) == /\ e.e = "inj"
             /\ CASE e.k \in {"t", "h"} -> IF e.err = "" THEN Complete(e.H) ELSE e.fail = Len(e.H)
                  [] e.k = "s" -> IF e.err = "" THEN BinaryRight(Binary(e.B)) ELSE e.fail = 0
                  [] e.k = "b" -> e.err = "" /\ BinaryRight(Binary(e.B))
                  [] e.k = "f" -> e.err # "" /\ ("H" \in DOMAIN e => e.H = <<>>) /\ ("B" \in DOMAIN e => e.B = <<>>)
                  [] e.k = "o" -> e.err # ""
             /\ UNCHANGED <<modes, ctx>>

\* what was extracted is what the first format present spells
Judge(e, r) == CASE e.res = "err" -> MayRefuse(r)
                 [] e.res = "none" -> MayFindNothing(r)
                 [] e.res = "ok" -> Whole(e.got) /\ MayYield(r, e.got)
\* the carrier of one's own keeps the letter case of keys, or does not
LowGot(g) == [g EXCEPT !.bag = [i \in DOMAIN g.bag |-> <<Lower(g.bag[i][1]), g.bag[i][2]>>]]
Custom(e, r) == CASE e.res = "err" -> r.st = "odd"
                  [] e.res = "none" -> r.st \in {"bad", "odd"}
                  [] e.res = "ok" -> Whole(e.got) /\ (MayYield(r, LowGot(e.got)) \/ (r.st \in {"good", "either"} /\ Cardinality(DOMAIN r.bag) < Len(e.got.bag)))
Extract(e) == /\ e.e = "ext"
              /\ CASE e.k \in {"t", "h"} -> Judge(e, First(Tried(modes), e.H, e.k = "h", e.look))
                   [] e.k = "s" -> IF e.B = <<>> THEN e.res = "none" ELSE Judge(e, Binary(e.B))
                   [] e.k = "b" -> Custom(e, Binary(e.B))
                   [] e.k \in {"o", "x"} -> e.res = "err"
              /\ UNCHANGED <<modes, ctx>>

TNext == /\ l <= Len(Traces[tid])
         /\ (Context(Ev) \/ Inject(Ev) \/ Extract(Ev))
         /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_tvars
TMark == TMarkAt(tid, l)
TPost == TPostAll
==============================================================================

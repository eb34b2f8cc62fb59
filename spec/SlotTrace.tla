------------------------------ MODULE SlotTrace ------------------------------
(* Owning slots exchanged, filled and reset concurrently (C03).                 *)
EXTENDS TraceKit
VARIABLES slot,    \* slot -> object it owns (0: none)
          owner,   \* object -> thread (>= 0), -1: in a slot, -2: destroyed
          pend,    \* thread -> its call in progress
          tid, l
vars == <<slot, owner, pend, tid, l>>
None == [op |-> "none"]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SlotOf(s) == IF s \in DOMAIN slot THEN slot[s] ELSE 0
P(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
SetOwner(f, o, w) == IF o = 0 THEN f ELSE Ext(f, o, w)

Call(e) ==
  /\ P(e.t) = None
  /\ e.id # 0 => e.id \notin DOMAIN owner
  /\ owner' = SetOwner(owner, e.id, e.t)
  /\ pend' = Ext(pend, e.t, [op |-> e.op, s |-> e.s, id |-> e.id, lin |-> FALSE, res |-> 0, old |-> 0])
  /\ UNCHANGED slot

Lin(t) ==
  /\ P(t) # None /\ ~P(t).lin
  /\ LET p == P(t)
         old == SlotOf(p.s)
     IN CASE p.op = "fill" ->
               /\ IF old = 0
                  THEN slot' = Ext(slot, p.s, p.id) /\ owner' = SetOwner(owner, p.id, -1)
                  ELSE UNCHANGED <<slot, owner>>
               /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = IF old = 0 THEN 1 ELSE 0, ![t].old = IF old = 0 THEN 0 ELSE p.id]
          [] p.op \in {"swap", "reset", "destroy"} ->
               /\ slot' = Ext(slot, p.s, p.id)
               /\ owner' = SetOwner(SetOwner(owner, p.id, -1), old, t)
               /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = 1, ![t].old = old]
          [] p.op = "null" ->
               /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = IF old = 0 THEN 1 ELSE 0]
               /\ UNCHANGED <<slot, owner>>

\* e.w: loads may read values already overwritten.  A fill may then be refused, and a look be answered, out of date.
RetWeak(e) ==
  LET p == P(e.t) IN
  /\ p # None /\ ~p.lin /\ e.w = 1 /\ e.t # 0
  /\ (p.op = "fill" /\ e.r = 0 /\ e.own = p.id) \/ p.op = "null"
  /\ pend' = Ext(pend, e.t, None)
  /\ UNCHANGED <<slot, owner>>

Ret(e) ==
  LET p == P(e.t) IN
  /\ p # None /\ p.lin
  /\ e.r = p.res
  /\ CASE p.op \in {"fill", "swap"} -> e.own = p.old
       [] p.op \in {"reset", "destroy"} -> p.old # 0 => owner[p.old] = -2
       [] OTHER -> TRUE
  /\ pend' = Ext(pend, e.t, None)
  /\ UNCHANGED <<slot, owner>>

\* an object is destroyed by the thread that holds it: one that was swapped out,
\* or that a reset of this thread has just taken out of its slot
Destroyed(e) ==
  /\ e.id \in DOMAIN owner /\ owner[e.id] = e.t
  /\ P(e.t) = None \/ (P(e.t).op \in {"reset", "destroy"} /\ P(e.t).lin /\ P(e.t).old = e.id)
  /\ owner' = [owner EXCEPT ![e.id] = -2]
  /\ UNCHANGED <<slot, pend>>

Look(e) == e.id = SlotOf(e.s) /\ UNCHANGED <<slot, owner, pend>>
End == (\A o \in DOMAIN owner : owner[o] = -2) /\ UNCHANGED <<slot, owner, pend>>

TInit == tid \in 1..NTraces /\ l = 1 /\ slot = <<>> /\ owner = <<>> /\ pend = <<>>
Ev == Traces[tid][l]
Step(e) == \/ e.e = "c" /\ Call(e)
           \/ e.e = "r" /\ (Ret(e) \/ RetWeak(e))
           \/ e.e = "d" /\ Destroyed(e)
           \/ e.e = "look" /\ Look(e)
           \/ e.e = "end" /\ End
Silent == Ev.e \in {"r", "d"} /\ \E t \in DOMAIN pend : Lin(t)
TNext == /\ l <= Len(Traces[tid]) /\ tid' = tid
         /\ \/ Step(Ev) /\ l' = l + 1
            \/ Silent /\ l' = l
TSpec == TInit /\ [][TNext]_vars
TMark == TMarkAt(tid, l)
TPost == TPostAll
=============================================================================

------------------------------ MODULE SpanBuffer ------------------------------
(* The bounded multi-producer single-consumer buffer as its users see it       *)
(* (C01, C02).  A call has a start, a hidden linearization step and a return.   *)
(* Weak: loads may read values already overwritten, where the memory orders the *)
(* code asks for permit it.  Then what is said about the counts may be out of   *)
(* date, but what is handed over is as exact as ever.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES cap,     \* capacity
          q,       \* identities waiting, oldest first
          prod,    \* number of objects ever added
          cons,    \* number ever consumed
          pend,    \* thread -> its call in progress
          owner    \* object -> thread holding it, -1: in the buffer, -2: destroyed

bvars == <<cap, q, prod, cons, pend, owner>>

None == [op |-> "none"]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Pend(t) == IF t \in DOMAIN pend THEN pend[t] ELSE None
SetPend(t, r) == pend' = Ext(pend, t, r)

BInit(c) == cap = c /\ q = <<>> /\ prod = 0 /\ cons = 0 /\ pend = <<>> /\ owner = <<>>

\* ---- producers
AddCall(t, id) ==
  /\ Pend(t) = None
  /\ (IF id \in DOMAIN owner THEN owner[id] = t ELSE TRUE)
  /\ owner' = Ext(owner, id, t)
  /\ SetPend(t, [op |-> "add", id |-> id, lin |-> FALSE, cons0 |-> cons])
  /\ UNCHANGED <<cap, q, prod, cons>>

AddLin(t) ==
  /\ Pend(t).op = "add" /\ ~Pend(t).lin
  /\ Len(q) < cap                              \* the bound
  /\ q' = Append(q, pend[t].id)
  /\ prod' = prod + 1
  /\ owner' = [owner EXCEPT ![pend[t].id] = -1]
  /\ pend' = [pend EXCEPT ![t].lin = TRUE]
  /\ UNCHANGED <<cap, cons>>

AddOk(t, own) ==
  /\ Pend(t).op = "add" /\ pend[t].lin /\ own = 0
  /\ SetPend(t, None)
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

\* refused: at some two instants of the call, in this order, the consumed and the
\* added counts were seen a whole capacity apart
AddRefused(t, own, Weak) ==
  /\ Pend(t).op = "add" /\ ~pend[t].lin
  /\ own = pend[t].id
  /\ IF Weak THEN prod >= cap ELSE prod - pend[t].cons0 >= cap
  /\ SetPend(t, None)
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

\* ---- the consumer
ConsCall(t, op, n) ==
  /\ Pend(t) = None
  /\ SetPend(t, [op |-> op, n |-> IF op \in {"clear", "destroy"} THEN -1 ELSE n, lin |-> FALSE, counted |-> FALSE, res |-> <<>>, val |-> 0])
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

Removes == {"take", "discard", "clear", "destroy"}

\* clearing looks at the size first and removes that many afterwards
SizeLin(t, Weak) ==
  /\ Pend(t).op \in {"clear", "destroy"} /\ ~pend[t].lin /\ pend[t].n = -1
  /\ \E n \in (IF Weak THEN 0 ELSE Len(q))..Len(q) : pend' = [pend EXCEPT ![t].n = n]
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

RemoveLin(t) ==
  /\ Pend(t).op \in Removes /\ ~pend[t].lin /\ pend[t].n >= 0
  /\ LET n == pend[t].n
         gone == SubSeq(q, 1, n)
     IN /\ n <= Len(q)
        /\ q' = SubSeq(q, n + 1, Len(q))
        /\ owner' = [x \in DOMAIN owner |->
                       IF \E i \in 1..n : gone[i] = x THEN t ELSE owner[x]]
        /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = gone]
  /\ UNCHANGED <<cap, prod, cons>>

\* the consumed count moves before or after the objects are handed over
CountLin(t) ==
  /\ Pend(t).op \in Removes /\ ~pend[t].counted /\ pend[t].n >= 0
  /\ cons' = cons + pend[t].n
  /\ pend' = [pend EXCEPT ![t].counted = TRUE]
  /\ UNCHANGED <<cap, q, prod, owner>>

ReadLin(t, Weak) ==
  /\ Pend(t).op \in {"peek", "count", "prod", "cons", "empty"} /\ ~pend[t].lin
  /\ \E back \in 0..(IF Weak THEN Len(q) ELSE 0) :
       pend' = [pend EXCEPT ![t].lin = TRUE,
                            ![t].res = IF pend[t].op = "peek" THEN SubSeq(q, 1, Len(q) - back) ELSE <<>>,
                            ![t].val = CASE pend[t].op = "count" -> Len(q) - back
                                         [] pend[t].op = "prod" -> prod - back
                                         [] pend[t].op = "cons" -> cons
                                         [] pend[t].op = "empty" -> (IF Len(q) = back THEN 1 ELSE 0)
                                         [] OTHER -> 1]
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

ConsRet(t, ids, v) ==
  /\ Pend(t).op \notin {"none", "add"} /\ pend[t].lin
  /\ CASE pend[t].op = "take" -> ids = pend[t].res
       [] pend[t].op = "peek" -> ids = pend[t].res /\ v = <<1>>
       [] pend[t].op \in {"discard", "clear", "destroy"} ->
            \A i \in 1..Len(pend[t].res) : owner[pend[t].res[i]] = -2
       [] OTHER -> v = <<pend[t].val>>
  /\ pend[t].op \in Removes => pend[t].counted
  /\ SetPend(t, None)
  /\ UNCHANGED <<cap, q, prod, cons, owner>>

\* ---- objects die once, in the hands of their owner, and intact
Destroyed(t, id) ==
  /\ id \in DOMAIN owner /\ owner[id] = t
  /\ Pend(t).op # "add"
  /\ owner' = [owner EXCEPT ![id] = -2]
  /\ UNCHANGED <<cap, q, prod, cons, pend>>

\* ---- what must hold in every state
Bounded == Len(q) <= cap
CountsAgree == (\A t \in DOMAIN pend : Pend(t).op \notin Removes) => prod - cons = Len(q)
PerProducerOrder == \A i, j \in 1..Len(q) : i < j /\ q[i] \div 100 = q[j] \div 100 => q[i] < q[j]
InBufferOnce == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
AllGone == \A x \in DOMAIN owner : owner[x] = -2
==============================================================================

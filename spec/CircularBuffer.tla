---------------------------- MODULE CircularBuffer ----------------------------
(* The algorithm of common/circular_buffer.h at the grain of its atomic        *)
(* operations: producers read tail, read head, fill the slot if it is empty,   *)
(* move head by compare-and-swap and undo the fill if that fails; the consumer *)
(* moves tail first and empties the slots afterwards.                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Prods, Items, Max, Total

Slots == Max + 1
VARIABLES head, tail, slot, pc, hd, tl, nxt, hand, result, cpc, got, cnt, order, lastRefusal
vars == <<head, tail, slot, pc, hd, tl, nxt, hand, result, cpc, got, cnt, order, lastRefusal>>

Obj(p, i) == <<p, i>>
None == <<"none", 0>>

Init == /\ head = 0 /\ tail = 0
        /\ slot = [i \in 0..(Slots - 1) |-> None]
        /\ pc = [p \in Prods |-> "start"] /\ hd = [p \in Prods |-> 0] /\ tl = [p \in Prods |-> 0]
        /\ nxt = [p \in Prods |-> 1] /\ hand = [p \in Prods |-> None]
        /\ result = [p \in Prods |-> <<>>]
        /\ cpc = "idle" /\ got = <<>> /\ cnt = 0 /\ order = <<>> /\ lastRefusal = TRUE

Start(p) == /\ pc[p] = "start" /\ nxt[p] <= Items
            /\ hand' = [hand EXCEPT ![p] = Obj(p, nxt[p])]
            /\ pc' = [pc EXCEPT ![p] = "tail"]
            /\ UNCHANGED <<head, tail, slot, hd, tl, nxt, result, cpc, got, cnt, order, lastRefusal>>
ReadTail(p) == /\ pc[p] = "tail"
               /\ tl' = [tl EXCEPT ![p] = tail] /\ pc' = [pc EXCEPT ![p] = "head"]
               /\ UNCHANGED <<head, tail, slot, hd, nxt, hand, result, cpc, got, cnt, order, lastRefusal>>
ReadHead(p) == /\ pc[p] = "head"
               /\ hd' = [hd EXCEPT ![p] = head]
               /\ IF head - tl[p] >= Max
                  THEN /\ pc' = [pc EXCEPT ![p] = "start"] /\ nxt' = [nxt EXCEPT ![p] = @ + 1]
                       /\ hand' = [hand EXCEPT ![p] = None]
                       /\ result' = [result EXCEPT ![p] = Append(@, FALSE)]
                       /\ lastRefusal' = (lastRefusal /\ hand[p] # None)
                  ELSE /\ pc' = [pc EXCEPT ![p] = "fill"] /\ UNCHANGED <<nxt, hand, result, lastRefusal>>
               /\ UNCHANGED <<head, tail, slot, tl, cpc, got, cnt, order>>
Fill(p) == /\ pc[p] = "fill"
           /\ LET i == hd[p] % Slots IN
              IF slot[i] = None
              THEN /\ slot' = [slot EXCEPT ![i] = hand[p]] /\ hand' = [hand EXCEPT ![p] = None]
                   /\ pc' = [pc EXCEPT ![p] = "cas"]
              ELSE /\ pc' = [pc EXCEPT ![p] = "tail"] /\ UNCHANGED <<slot, hand>>
           /\ UNCHANGED <<head, tail, hd, tl, nxt, result, cpc, got, cnt, order, lastRefusal>>
Cas(p) == /\ pc[p] = "cas"
          /\ IF head = hd[p]
             THEN /\ head' = head + 1
                  /\ order' = Append(order, slot[hd[p] % Slots])
                  /\ pc' = [pc EXCEPT ![p] = "start"] /\ nxt' = [nxt EXCEPT ![p] = @ + 1]
                  /\ result' = [result EXCEPT ![p] = Append(@, TRUE)]
             ELSE /\ pc' = [pc EXCEPT ![p] = "undo"] /\ UNCHANGED <<head, order, nxt, result>>
          /\ UNCHANGED <<tail, slot, hd, tl, hand, cpc, got, cnt, lastRefusal>>
Undo(p) == /\ pc[p] = "undo"
           /\ LET i == hd[p] % Slots IN slot' = [slot EXCEPT ![i] = None] /\ hand' = [hand EXCEPT ![p] = slot[i]]
           /\ pc' = [pc EXCEPT ![p] = "tail"]
           /\ UNCHANGED <<head, tail, hd, tl, nxt, result, cpc, got, cnt, order, lastRefusal>>

\* the consumer: any n up to what it sees
ConsumeTail == /\ cpc = "idle"
               /\ \E n \in 1..Max : /\ n <= head - tail
                                    /\ tail' = tail + n /\ cnt' = n /\ cpc' = "empty"
               /\ UNCHANGED <<head, slot, pc, hd, tl, nxt, hand, result, got, order, lastRefusal>>
ConsumeSlot == /\ cpc = "empty"
               /\ LET i == (tail - cnt) % Slots IN
                  /\ got' = Append(got, slot[i])
                  /\ slot' = [slot EXCEPT ![i] = None]
               /\ cnt' = cnt - 1
               /\ cpc' = IF cnt = 1 THEN "idle" ELSE "empty"
               /\ UNCHANGED <<head, tail, pc, hd, tl, nxt, hand, result, order, lastRefusal>>

ProdStep(p) == Start(p) \/ ReadTail(p) \/ ReadHead(p) \/ Fill(p) \/ Cas(p) \/ Undo(p)
Done == (\A p \in Prods : pc[p] = "start" /\ nxt[p] > Items) /\ cpc = "idle" /\ head = tail /\ UNCHANGED vars
Next == (\E p \in Prods : ProdStep(p)) \/ ConsumeTail \/ ConsumeSlot \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ (\A p \in Prods : WF_vars(ProdStep(p))) /\ WF_vars(ConsumeTail) /\ WF_vars(ConsumeSlot)

\* everything added is handed over once, in the order it was added
ExactlyOnce == /\ \A i \in 1..Len(got) : got[i] = order[i]
               /\ None \notin {got[i] : i \in 1..Len(got)}
Bounded == head - tail <= Max /\ head >= tail
Order == \A i, j \in 1..Len(order) : i < j /\ order[i][1] = order[j][1] => order[i][2] < order[j][2]
\* an object is in one place
Places(o) == Cardinality({p \in Prods : hand[p] = o}) + Cardinality({i \in 0..(Slots - 1) : slot[i] = o})
             + Cardinality({i \in 1..Len(got) : got[i] = o})
Owned == \A p \in Prods : \A i \in 1..Items : Places(Obj(p, i)) <= 1
RefusedIsOwned == lastRefusal
NoStuck == <>[](\A p \in Prods : pc[p] = "start" /\ nxt[p] > Items)
==============================================================================

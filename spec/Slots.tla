-------------------------------- MODULE Slots --------------------------------
(* Owning slots: every interleaving of fill (conditional), swap and reset at the *)
(* grain of their atomic step and the deletion that follows it (C03).            *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, SlotSet, MaxObj
VARIABLES slot, hand, dead, pc, made
vars == <<slot, hand, dead, pc, made>>
Init == /\ slot = [s \in SlotSet |-> 0] /\ hand = [t \in Threads |-> 0] /\ dead = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ made = 0
Make(t) == pc[t] = "idle" /\ hand[t] = 0 /\ made < MaxObj /\ made' = made + 1 /\ hand' = [hand EXCEPT ![t] = made + 1]
           /\ UNCHANGED <<slot, dead, pc>>
Fill(t, s) == /\ pc[t] = "idle" /\ hand[t] # 0
              /\ IF slot[s] = 0 THEN slot' = [slot EXCEPT ![s] = hand[t]] /\ hand' = [hand EXCEPT ![t] = 0]
                 ELSE UNCHANGED <<slot, hand>>
              /\ UNCHANGED <<dead, pc, made>>
Swap(t, s) == /\ pc[t] = "idle"
              /\ slot' = [slot EXCEPT ![s] = hand[t]] /\ hand' = [hand EXCEPT ![t] = slot[s]]
              /\ UNCHANGED <<dead, pc, made>>
Reset(t, s) == /\ pc[t] = "idle"
               /\ slot' = [slot EXCEPT ![s] = hand[t]] /\ hand' = [hand EXCEPT ![t] = slot[s]]
               /\ pc' = [pc EXCEPT ![t] = "delete"] /\ UNCHANGED <<dead, made>>
Delete(t) == /\ (pc[t] = "delete" \/ (pc[t] = "idle" /\ hand[t] # 0))
             /\ dead' = IF hand[t] # 0 THEN Append(dead, hand[t]) ELSE dead
             /\ hand' = [hand EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<slot, made>>
Next == \E t \in Threads : Make(t) \/ Delete(t) \/ \E s \in SlotSet : Fill(t, s) \/ Swap(t, s) \/ Reset(t, s)
Spec == Init /\ [][Next]_vars
Places(o) == Cardinality({s \in SlotSet : slot[s] = o}) + Cardinality({t \in Threads : hand[t] = o})
             + Cardinality({i \in 1..Len(dead) : dead[i] = o})
OneOwner == \A o \in 1..made : Places(o) = 1
=============================================================================

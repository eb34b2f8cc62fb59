--------------------------- MODULE StatusLineModel ---------------------------
(* Replies over a small alphabet, one piece at a time.                           *)
EXTENDS StatusLine, TLC, Json
CONSTANTS MaxLen, MaxPiece
VARIABLES all, act, bad
mvars == <<slvars, all, act, bad>>
Alpha == {72, SP, CR, 10, 50}   \* H, space, CR, LF, 2
MInit == SLInit /\ all = <<>> /\ act = [op |-> "init"] /\ bad = FALSE
Pieces == UNION {[1..k -> Alpha] : k \in 0..MaxPiece}
MNext == \/ /\ ~bad /\ \E s \in Pieces, th \in {0, 1} :
                 /\ Len(all) + Len(s) <= MaxLen /\ Parse(s, th) /\ bad' = (th = 1)
                 /\ all' = all \o s /\ act' = [op |-> "p", s |-> s]
         \/ bad /\ Reset /\ all' = <<>> /\ bad' = FALSE /\ act' = [op |-> "r"]
MSpec == MInit /\ [][MNext]_mvars
MView == <<slvars, all, bad>>
\* however it came in pieces
First == LET e == Find(all, CR, 1) IN IF e = 0 THEN <<0, all>> ELSE <<1, SubSeq(all, 1, e - 1)>>
Whole == /\ done => First[1] = 1 /\ ValidLine(First[2]) /\ code = CodeOf(First[2]) /\ reason = ReasonOf(First[2])
         /\ bad => First[1] = 1 /\ ~ValidLine(First[2])
         /\ ~done /\ ~bad => First[1] = 0
===============================================================================

----------------------------- MODULE SocketModel -----------------------------
(* Everything a few socket objects can go through (C34), with kernel failures.   *)
EXTENDS Sockets, TLC, Json
CONSTANTS MaxFd, NObj
Objs == {"a", "b", "c"} \cap (IF NObj = 2 THEN {"a", "b"} ELSE {"a", "b", "c"})
VARIABLE act
Free == CHOOSE n \in 0..MaxFd : n \notin open /\ \A m \in 0..(n - 1) : m \in open
CanOpen == \E n \in 0..MaxFd : n \notin open
Open == open' = Held(own')
A(op, t, s, f) == act' = [op |-> op, t |-> t, s |-> s, fail |-> f]
MInit == own = <<>> /\ open = {} /\ act = [op |-> "", t |-> "", s |-> "", fail |-> ""]
Stages == {"socket", "nb", "opt", "conn"}
Going == {"ok", "progress", "again"}      \* how a connect that works may answer
MNext ==
  \E t \in Objs, s \in Objs :
   \/ t = s /\ CanOpen /\ Create(t, Free) /\ Open /\ \E k \in {"new", "new2"} : A(k, t, "", "ok")
   \/ t = s /\ t \notin DOMAIN own /\ Nothing /\ Open /\ \E k \in {"new", "new2"} : A(k, t, "", "socket")
   \/ t = s /\ CanOpen /\ Adopt(t, Free) /\ Open /\ A("adopt", t, "", "ok")
   \/ t = s /\ Adopt(t, -1) /\ Open /\ A("adopt", t, "", "bad")
   \/ MoveInto(t, s) /\ Open /\ A("mc", t, s, "ok")
   \/ Assign(t, s) /\ Open /\ A("ma", t, s, "ok")
   \/ Swap(t, s) /\ Open /\ A("sw", t, s, "ok")
   \/ t = s /\ Destroy(t) /\ Open /\ \E f \in {"ok", "close"} : A("del", t, "", f)
   \/ t = s /\ CanOpen /\ Create(t, Free) /\ Open /\ \E f \in Going : A("CC", t, "", f)
   \/ t = s /\ CanOpen /\ t \notin DOMAIN own /\ Nothing /\ Open /\ \E f \in Stages : A("CC", t, "", f)
   \/ t = s /\ CanOpen /\ Overwrite(t, Free) /\ Open /\ \E f \in Going : A("CA", t, "", f)
   \/ t = s /\ CanOpen /\ t \in DOMAIN own /\ Nothing /\ Open /\ \E f \in Stages : A("CA", t, "", f)
   \/ t = s /\ t \in DOMAIN own /\ own[t] # -1 /\ Nothing /\ Open /\ \E k \in {"nb", "ra", "con"}, f \in {"ok", "fail"} : A(k, t, "", f)
MSpec == MInit /\ [][MNext]_<<own, open, act>>
St == [own |-> own, open |-> open]
MView == <<own, open>>
Key(o) == [own |-> ToString(o), n |-> 0]
MEmit == PrintT("T" \o ToJson([f |-> <<ToString(own)>>, a |-> act', t |-> <<ToString(own')>>]))
MInitEmit == TLCGet("level") = 1 => PrintT("I" \o ToJson(<<ToString(own)>>))
===============================================================================

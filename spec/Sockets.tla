------------------------------- MODULE Sockets -------------------------------
(* Ownership of socket descriptors (C34).  own: object -> descriptor or -1;     *)
(* open: the descriptors the kernel holds open.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES own, open
Put(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]
Del(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
Held(f) == {f[x] : x \in DOMAIN f} \ {-1}
\* the next owners; the descriptors nobody owns any more are closed
Create(o, fd) == o \notin DOMAIN own /\ fd \notin open /\ own' = Put(own, o, fd)
Adopt(o, fd) == o \notin DOMAIN own /\ (fd = -1 \/ fd \notin open) /\ own' = Put(own, o, fd)
MoveInto(t, s) == t \notin DOMAIN own /\ s \in DOMAIN own /\ own' = Put(Put(own, s, -1), t, own[s])
Assign(t, s) == t \in DOMAIN own /\ s \in DOMAIN own /\ t # s /\ own' = [own EXCEPT ![t] = own[s], ![s] = -1]
Swap(t, s) == t \in DOMAIN own /\ s \in DOMAIN own /\ t # s /\ own' = [own EXCEPT ![t] = own[s], ![s] = own[t]]
Overwrite(t, fd) == t \in DOMAIN own /\ fd \notin open /\ own' = [own EXCEPT ![t] = fd]
Destroy(o) == o \in DOMAIN own /\ own' = Del(own, o)
Nothing == own' = own
\* properties
OpenIsOwned == open = Held(own)
OneOwner == \A x, y \in DOMAIN own : own[x] = own[y] /\ own[x] # -1 => x = y
===============================================================================

------------------------------ MODULE EncodeTrace ------------------------------
(* Encodings (C32): each recorded call wrote exactly the standard bytes, touched *)
(* nothing else, and every size computed in advance is what was written.         *)
EXTENDS Numbers, TraceKit
VARIABLES tid, l
TInit == tid \in 1..NTraces /\ l = 1
Step(e) ==
  \/ e.e \in {"vb", "v64", "v32", "tag"} /\ e.g = 1 /\ e.b = Varint(e.x)
  \/ e.e = "raw" /\ e.g = 1 /\ e.b = e.raw
  \/ e.e \in {"fv", "fb"} /\ e.g = 1 /\ e.b = Key(Num(e.f), 0) \o Varint(e.x) /\ e.s = Len(e.b)
  \/ e.e = "fk" /\ e.g = 1 /\ e.b = Key(Num(e.f), 2) \o Varint(e.x) /\ e.s = Len(e.b)
  \/ e.e = "ff" /\ e.g = 1 /\ e.b = Key(Num(e.f), 1) \o LittleEndian(e.x) /\ e.s = Len(e.b)
  \/ e.e = "fs" /\ e.g = 1 /\ e.b = Delimited(Num(e.f), e.raw) /\ e.s = Len(e.b)
  \/ e.e = "hdr" /\ e.g = 1 /\ e.f = 3 /\ e.b = Key(Num(e.f), 2) \o Varint(e.x)
  \/ e.e = "emb" /\ e.b = Delimited(e.f, e.raw) /\ e.s1 = Len(e.b) /\ e.s2 = Len(e.b)
  \/ e.e = "big" /\ e.b = Key(e.f, 2) \o Varint(e.n) /\ e.same = 1 /\ e.s = e.len
  \/ e.e = "lsz" /\ e.h = Num(VarintLen(e.x) + Len(Key(Num(e.f), 2))) /\ e.r = Add(e.x, e.h)
  \/ e.e = "ws" /\ e.b = Delimited(Num(e.f), e.raw) /\ e.d = e.b /\ e.s = Len(e.b)
  \/ e.e = "ts" /\ LET in == Key(Num(1), 0) \o Varint(e.x) \o Key(Num(2), 0) \o Varint(e.y)
                    IN e.b = Delimited(Num(e.f), in) /\ e.d = e.b /\ e.s = Len(in)
  \/ e.e = "esz" /\ e.r = Add(e.x, Num(VarintLen(e.x) + Len(Key(e.f, 2))))
TNext == l <= Len(Traces[tid]) /\ Step(Traces[tid][l]) /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
TMark == TMarkAt(tid, l)
TPost == TPostAll
================================================================================

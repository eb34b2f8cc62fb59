----------------------------- MODULE ChainModel ------------------------------
(* The block chain of chained_stream.cpp with blocks of Block bytes: Next hands *)
(* out the rest of the current block or a new block, BackUp returns a suffix of *)
(* what was last handed out, Close freezes.  Bytes are written with identities  *)
(* 1, 2, 3, ...; what was backed up is written again with new identities.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Block, MaxBlocks
VARIABLES blocks,   \* Seq of Seq of byte identities
          fresh,    \* next identity
          last,     \* what is left of the buffer last handed out
          written,  \* ghost: bytes written and not given back
          nbytes,   \* num_bytes_written_
          closed
vars == <<blocks, fresh, last, written, nbytes, closed>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Ids(n) == [i \in 1..n |-> fresh + i - 1]
Cur == blocks[Len(blocks)]
MInit == blocks = <<<<>>>> /\ fresh = 1 /\ last = 0 /\ written = <<>> /\ nbytes = 0 /\ closed = FALSE
NextBuf ==
  /\ ~closed
  /\ LET room == Block - Len(Cur)
         n == IF room > 0 THEN room ELSE Block
     IN /\ blocks' = IF room > 0 THEN [blocks EXCEPT ![Len(blocks)] = @ \o Ids(n)] ELSE Append(blocks, Ids(n))
        /\ written' = written \o Ids(n)
        /\ fresh' = fresh + n
        /\ last' = n
        /\ nbytes' = nbytes + n
  /\ UNCHANGED closed
BackUp(k) ==
  /\ ~closed /\ last > 0 /\ k <= last
  /\ blocks' = [blocks EXCEPT ![Len(blocks)] = SubSeq(@, 1, Len(@) - k)]
  /\ written' = SubSeq(written, 1, Len(written) - k)
  /\ nbytes' = nbytes - k
  /\ last' = last - k
  /\ UNCHANGED <<fresh, closed>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<blocks, fresh, last, written, nbytes>>
MNext == NextBuf \/ (\E k \in 0..Block : BackUp(k)) \/ Close \/ (closed /\ UNCHANGED vars)
Bound == Len(blocks) <= MaxBlocks /\ fresh <= Block * (MaxBlocks + 2)
MSpec == MInit /\ [][MNext /\ Bound']_vars
MView == vars
NumFragments == IF nbytes = 0 THEN 0 ELSE Len(blocks)
Visited == IF nbytes = 0 THEN <<>> ELSE blocks
Exact == Flat(Visited) = written
Count == nbytes = Len(written)
Reads == NumFragments = Len(Visited) /\ \A i \in 1..(Len(blocks) - 1) : Len(blocks[i]) = Block
=============================================================================

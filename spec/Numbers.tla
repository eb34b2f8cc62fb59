-------------------------------- MODULE Numbers --------------------------------
(* 64-bit numbers as four 16-bit limbs, lowest first, and the protocol buffer   *)
(* base-128 encoding over them.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Pow2 == [i \in 0..16 |-> IF i = 0 THEN 1 ELSE 2 ^ i]
Bit(x, i) == IF i > 63 THEN 0 ELSE (x[(i \div 16) + 1] \div Pow2[i % 16]) % 2
\* the seven bits from bit 7*k
Group7(x, k) ==
  LET b == 7 * k
      lo == b \div 16
      sh == b % 16
      first == x[lo + 1] \div Pow2[sh]                       \* 16 - sh bits
      more == IF 16 - sh >= 7 \/ lo = 3 THEN 0 ELSE x[lo + 2] * Pow2[16 - sh]
  IN (first + more) % 128
IsZeroFrom(x, k) == \A j \in k..9 : Group7(x, j) = 0
VarintLen(x) == CHOOSE n \in 1..10 : IsZeroFrom(x, n) /\ (n = 1 \/ ~IsZeroFrom(x, n - 1))
Varint(x) == LET n == VarintLen(x) IN [i \in 1..n |-> Group7(x, i - 1) + (IF i < n THEN 128 ELSE 0)]
Num(n) == <<n % 65536, (n \div 65536) % 65536, 0, 0>>        \* of a natural below 2^31
\* what a standard decoder reads: the value as 70 bits' limbs, and the length
RECURSIVE DecLen(_, _)
DecLen(b, i) == IF i > Len(b) \/ i > 10 THEN 0 ELSE IF b[i] < 128 THEN i ELSE DecLen(b, i + 1)
DecBit(b, i) == LET k == i \div 7 IN IF k + 1 > DecLen(b, 1) THEN 0 ELSE (b[k + 1] \div Pow2[i % 7]) % 2
RECURSIVE SumBits(_, _, _)
SumBits(b, lo, i) == IF i = 16 THEN 0 ELSE DecBit(b, lo + i) * Pow2[i] + SumBits(b, lo, i + 1)
Decode(b) == [k \in 1..4 |-> SumBits(b, 16 * (k - 1), 0)]
\* arithmetic modulo 2^64
RECURSIVE AddC(_, _, _, _)
AddC(x, y, k, c) == IF k > 4 THEN <<>> ELSE LET s == x[k] + y[k] + c IN <<s % 65536>> \o AddC(x, y, k + 1, s \div 65536)
Add(x, y) == AddC(x, y, 1, 0)
Not(x) == [k \in 1..4 |-> 65535 - x[k]]
Neg(x) == Add(Not(x), <<1, 0, 0, 0>>)
Sub(x, y) == Add(x, Neg(y))
Small(k) == IF k >= 0 THEN Num(k) ELSE Neg(Num(-k))
\* field keys and framed values; a field number may need more than 28 bits
ShiftKey(f, wire) == LET y == Add(f, f) z == Add(y, y) w == Add(z, z) IN Add(w, Num(wire))
Key(f, wire) == Varint(ShiftKey(f, wire))
LittleEndian(x) == [i \in 1..8 |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] % 256 ELSE x[i \div 2] \div 256]
Delimited(f, raw) == Key(f, 2) \o Varint(Num(Len(raw))) \o raw
================================================================================

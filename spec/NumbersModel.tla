----------------------------- MODULE NumbersModel -----------------------------
(* The big-integer encoder of direct_coded_output_stream.h step by step, for    *)
(* every number built from boundary limbs: it writes what Numbers calls the     *)
(* encoding, and a standard decoder reads the number back.                      *)
EXTENDS Numbers, TLC
CONSTANTS LimbValues
VARIABLES x, rest, out, k
vars == <<x, rest, out, k>>
Big(v) == v[4] >= 256
Shift7(v) == [i \in 1..4 |-> (v[i] \div 128) + (IF i < 4 THEN (v[i + 1] % 128) * 512 ELSE 0)]
Low8(v) == LET b == v[1] % 256 IN IF b >= 128 THEN b ELSE b + 128
Init == /\ x \in {<<a, b, c, d>> : a \in LimbValues, b \in LimbValues, c \in LimbValues, d \in LimbValues}
        /\ rest = x /\ out = <<>> /\ k = 0
AtLeast128(v) == v[1] >= 128 \/ v[2] > 0 \/ v[3] > 0 \/ v[4] > 0
Step == /\ k < 10 /\ k' = k + 1 /\ x' = x
        /\ IF Big(x)
           THEN IF k < 8 \/ (k = 8 /\ AtLeast128(rest))
                THEN out' = Append(out, Low8(rest)) /\ rest' = Shift7(rest)
                ELSE IF k = 8 \/ (k = 9 /\ Len(out) = 9) THEN (IF Len(out) = k THEN out' = Append(out, rest[1] % 256) /\ rest' = <<0, 0, 0, 0>> ELSE UNCHANGED <<out, rest>>)
                ELSE UNCHANGED <<out, rest>>
           ELSE IF k = 0 THEN out' = Varint(x) /\ rest' = rest ELSE UNCHANGED <<out, rest>>
Spec == Init /\ [][Step]_vars
Standard == k = 10 => out = Varint(x)
Decodes == k = 10 => Decode(out) = x /\ DecLen(out, 1) = Len(out)
================================================================================

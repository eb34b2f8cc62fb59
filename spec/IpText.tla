--------------------------------- MODULE IpText ---------------------------------
(* The textual forms of numeric addresses (C37), as inet_pton accepts them.        *)
(* Text is a sequence of character codes; the result is the address bytes, or      *)
(* <<>> for text that is no address.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Dot == 46
Colon == 58
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
\* the maximal pieces between separators
RECURSIVE Split(_, _)
Split(s, sep) ==
  IF \A i \in 1..Len(s) : s[i] # sep THEN <<s>>
  ELSE LET i == CHOOSE j \in 1..Len(s) : s[j] = sep /\ \A k \in 1..(j - 1) : s[k] # sep
       IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), sep)
RECURSIVE DecVal(_, _)
DecVal(s, a) == IF s = <<>> THEN a ELSE DecVal(Tail(s), 10 * a + s[1] - 48)
RECURSIVE HexNum(_, _)
HexNum(s, a) == IF s = <<>> THEN a ELSE HexNum(Tail(s), 16 * a + HexVal(s[1]))
OctetOk(p) == /\ Len(p) \in 1..3
              /\ \A i \in 1..Len(p) : IsDigit(p[i])
              /\ (Len(p) > 1 => p[1] # 48)
              /\ DecVal(p, 0) <= 255
ParseV4(s) == LET p == Split(s, Dot) IN
  IF Len(p) = 4 /\ \A i \in 1..4 : OctetOk(p[i]) THEN [i \in 1..4 |-> DecVal(p[i], 0)] ELSE <<>>
GroupOk(p) == Len(p) \in 1..4 /\ \A i \in 1..Len(p) : IsHex(p[i])
RECURSIVE GroupBytes(_)
GroupBytes(ps) == IF ps = <<>> THEN <<>>
                  ELSE LET v == HexNum(ps[1], 0) IN <<v \div 256, v % 256>> \o GroupBytes(Tail(ps))
\* a list of groups, the last of which may be an embedded IPv4 address if v4 is allowed
Bad == <<-1>>
Side(s, v4) ==
  IF s = <<>> THEN <<>>
  ELSE LET p == Split(s, Colon)
           n == Len(p)
           tail4 == ParseV4(p[n])
           groups == IF v4 /\ tail4 # <<>> THEN SubSeq(p, 1, n - 1) ELSE p
       IN IF \A i \in 1..Len(groups) : GroupOk(groups[i])
          THEN GroupBytes(groups) \o (IF v4 /\ tail4 # <<>> THEN tail4 ELSE <<>>)
          ELSE Bad
Gap(s) == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon}
ParseV6(s) ==
  LET g == Gap(s) IN
  IF g = {} THEN LET b == Side(s, TRUE) IN IF Len(b) = 16 /\ b # Bad THEN b ELSE <<>>
  ELSE LET i == CHOOSE x \in g : \A y \in g : x <= y
           left == Side(SubSeq(s, 1, i - 1), FALSE)
           right == Side(SubSeq(s, i + 2, Len(s)), TRUE)
       IN IF left = Bad \/ right = Bad \/ Len(left) + Len(right) > 14 THEN <<>>
          ELSE left \o [k \in 1..(16 - Len(left) - Len(right)) |-> 0] \o right
\* both families
Parse(s) == IF ParseV4(s) # <<>> THEN ParseV4(s) ELSE ParseV6(s)
FamilyOf(b) == IF Len(b) = 4 THEN 4 ELSE 6
==================================================================================

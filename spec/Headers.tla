------------------------------- MODULE Headers --------------------------------
(* How span contexts are spelled in carriers (C27, C28): the five header        *)
(* formats and the binary one.  Text is a sequence of bytes; an identifier is   *)
(* a sequence of hexadecimal digits 0..15, highest first.                       *)
(*                                                                              *)
(* Reading one format from a carrier says st =                                  *)
(*   "absent"  nothing of this format is there                                  *)
(*   "good"    a context is spelled as the format prescribes                    *)
(*   "bad"     malformed or incomplete: it must be refused                      *)
(*   "either"  outside the prescription, yet readable: it may be refused, or    *)
(*             taken for what it spells                                         *)
(* with the sets of traces T (pairs high, low), spans S, decisions F, trace     *)
(* states ts it may be taken for, and for each baggage key its possible values. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* ---- text
Str == [traceparent |-> <<116,114,97,99,101,112,97,114,101,110,116>>,
        tracestate |-> <<116,114,97,99,101,115,116,97,116,101>>,
        cloud |-> <<120,45,99,108,111,117,100,45,116,114,97,99,101,45,99,111,110,116,101,120,116>>,
        envoy |-> <<120,45,111,116,45,115,112,97,110,45,99,111,110,116,101,120,116>>,
        ltrace |-> <<111,116,45,116,114,97,99,101,114,45,116,114,97,99,101,105,100>>,
        lspan |-> <<111,116,45,116,114,97,99,101,114,45,115,112,97,110,105,100>>,
        lsampled |-> <<111,116,45,116,114,97,99,101,114,45,115,97,109,112,108,101,100>>,
        btrace |-> <<88,45,66,51,45,84,114,97,99,101,73,100>>,
        bspan |-> <<88,45,66,51,45,83,112,97,110,73,100>>,
        bsampled |-> <<88,45,66,51,45,83,97,109,112,108,101,100>>,
        bag |-> <<111,116,45,98,97,103,103,97,103,101,45>>]
True_ == <<116,114,117,101>>
False_ == <<102,97,108,115,101>>
One == <<49>>
Zero == <<48>>
Dash == 45
Slash == 47
Semi == 59

LowerC(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == [i \in DOMAIN s |-> LowerC(s[i])]
Same(a, b, ci) == IF ci THEN Len(a) = Len(b) /\ Lower(a) = Lower(b) ELSE a = b
Space(b) == b = 32 \/ b \in 9..13
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Space(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimR(Front(s)) ELSE s
Trim(s) == TrimR(TrimL(s))

Digit(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE 16
IsHex(s) == \A i \in DOMAIN s : Digit(s[i]) < 16
IsDec(s) == \A i \in DOMAIN s : s[i] \in 48..57
Digits(s) == [i \in DOMAIN s |-> Digit(s[i])]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
Pad(s, n) == Zeros(n - Len(s)) \o s
Text(d) == [i \in DOMAIN d |-> IF d[i] < 10 THEN 48 + d[i] ELSE 87 + d[i]]     \* lower case
Low(d) == SubSeq(d, 17, 32)
High(d) == SubSeq(d, 1, 16)

\* decimal to hexadecimal: digits, highest first; <<>> where it does not fit in 64 bits
RECURSIVE TenTimes(_, _, _)
TenTimes(d, i, c) == IF i = 0 THEN d ELSE LET x == d[i] * 10 + c IN TenTimes([d EXCEPT ![i] = x % 16], i - 1, x \div 16)
RECURSIVE FromDec(_, _, _)
FromDec(s, i, acc) == IF i > Len(s) THEN acc ELSE FromDec(s, i + 1, TenTimes(acc, 18, s[i] - 48))
Decimal(s) == LET t == Strip(Digits(s)) IN
  IF Len(t) > 20 THEN <<>> ELSE LET d == FromDec([i \in DOMAIN t |-> t[i] + 48], 1, Zeros(18)) IN IF d[1] # 0 \/ d[2] # 0 THEN <<>> ELSE SubSeq(d, 3, 18)
\* and back: division by ten, from the lowest digit
RECURSIVE DivTen(_, _, _, _)
DivTen(d, i, r, q) == IF i > Len(d) THEN <<q, r>> ELSE LET x == r * 16 + d[i] IN DivTen(d, i + 1, x % 10, Append(q, x \div 10))
RECURSIVE ToDec(_)
ToDec(d) == LET qr == DivTen(d, 1, 0, <<>>) IN (IF Strip(qr[1]) = <<>> THEN <<>> ELSE ToDec(Strip(qr[1]))) \o <<48 + qr[2]>>

\* ---- carriers: sequences of <<key, value>>
Vals(H, key, ci) == LET K == SelectSeq(H, LAMBDA kv : Same(kv[1], key, ci)) IN [i \in DOMAIN K |-> K[i][2]]
NoBag == [k \in {} |-> {}]
Baggage(H, ci) ==
  LET n == Len(Str.bag)
      I == {i \in DOMAIN H : Len(H[i][1]) > n /\ Same(SubSeq(H[i][1], 1, n), Str.bag, ci)}
      Key(i) == Lower(SubSeq(H[i][1], n + 1, Len(H[i][1])))
  IN [k \in {Key(i) : i \in I} |-> {H[i][2] : i \in {j \in I : Key(j) = k}}]

Absent == [st |-> "absent"]
Bad == [st |-> "bad"]
Read(st, T, S, F, ts, bag) == [st |-> st, T |-> T, S |-> S, F |-> F, ts |-> ts, bag |-> bag]

\* ---- b3 and the lightstep headers
HexField(v, n) ==
  LET t == Trim(v) z == Strip(Digits(t)) IN
  IF t = <<>> \/ ~IsHex(t) \/ Len(z) > n THEN [st |-> "bad"]
  ELSE [st |-> IF v = t /\ Len(v) <= n THEN "good" ELSE "either", d |-> Pad(z, n)]
Decisions(V) == IF V = <<>> THEN {1}
  ELSE UNION {IF V[i] \in {Zero, False_} THEN {0} ELSE IF V[i] \in {One, True_} THEN {1} ELSE {0, 1} : i \in DOMAIN V}
MultiHeader(H, ci, kt, ks, kf) ==
  LET T == Vals(H, kt, ci)
      S == Vals(H, ks, ci)
      ft == {x \in {HexField(T[i], 32) : i \in DOMAIN T} : x.st # "bad"}
      fs == {x \in {HexField(S[i], 16) : i \in DOMAIN S} : x.st # "bad"}
      one == Len(T) = 1 /\ Len(S) = 1
  IN IF T = <<>> /\ S = <<>> THEN Absent
     ELSE IF ft = {} \/ fs = {} THEN Bad
     ELSE Read(IF one /\ \A x \in ft \cup fs : x.st = "good" THEN "good" ELSE "either",
               {<<High(x.d), Low(x.d)>> : x \in ft}, {x.d : x \in fs}, Decisions(Vals(H, kf, ci)), {<<>>}, Baggage(H, ci))

\* ---- traceparent and tracestate
Parent(v) ==
  IF Len(v) < 55 \/ ~IsHex(SubSeq(v, 1, 2)) \/ v[3] # Dash \/ ~IsHex(SubSeq(v, 4, 35)) \/ v[36] # Dash \/ ~IsHex(SubSeq(v, 37, 52))
     \/ v[53] # Dash \/ ~IsHex(SubSeq(v, 54, 55)) THEN [st |-> "bad"]
  ELSE [st |-> IF Len(v) = 55 /\ SubSeq(v, 1, 2) = <<48, 48>> /\ v = Lower(v) THEN "good" ELSE "either",
        t |-> Digits(SubSeq(v, 4, 35)), s |-> Digits(SubSeq(v, 37, 52)), f |-> Digit(v[55]) % 2]
TraceContext(H, ci) ==
  LET V == Vals(H, Str.traceparent, ci)
      P == {x \in {Parent(V[i]) : i \in DOMAIN V} : x.st # "bad"}
      st == Vals(H, Str.tracestate, ci)
  IN IF V = <<>> THEN Absent
     ELSE IF P = {} THEN Bad
     ELSE Read(IF Len(V) = 1 /\ \A x \in P : x.st = "good" THEN "good" ELSE "either",
               {<<High(x.t), Low(x.t)>> : x \in P}, {x.s : x \in P}, {x.f : x \in P},
               IF st = <<>> THEN {<<>>} ELSE Range(st), Baggage(H, ci))

\* ---- x-cloud-trace-context: TRACE, TRACE/SPAN or TRACE/SPAN;o=OPTIONS
Cloud1(v) ==
  LET rest == SubSeq(v, 33, Len(v))
      n == IF \A i \in 2..Len(rest) : rest[i] \in 48..57 THEN Len(rest)
           ELSE Min({i \in 2..Len(rest) : rest[i] \notin 48..57}) - 1              \* end of the span's digits
      num == SubSeq(rest, 2, n)
      tail == SubSeq(rest, n + 1, Len(rest))
      t == Digits(SubSeq(v, 1, 32))
  IN IF Len(v) < 32 \/ ~IsHex(SubSeq(v, 1, 32)) THEN [st |-> "bad"]
     ELSE IF rest = <<>> THEN [st |-> "either", t |-> t, s |-> Zeros(16), F |-> {1}]
     ELSE IF rest[1] # Slash \/ num = <<>> \/ Decimal(num) = <<>> THEN [st |-> "bad"]
     ELSE IF tail = <<>> THEN [st |-> IF Len(num) <= 20 THEN "good" ELSE "either", t |-> t, s |-> Decimal(num), F |-> {1}]
     ELSE IF tail \in {<<Semi, 111, 61, 48>>, <<Semi, 111, 61, 49>>} /\ Len(num) <= 20
          THEN [st |-> "good", t |-> t, s |-> Decimal(num), F |-> {tail[4] - 48}]
     ELSE IF tail[1] = Semi THEN [st |-> "either", t |-> t, s |-> Decimal(num), F |-> {0, 1}]
     ELSE [st |-> "bad"]
CloudTrace(H, ci) ==
  LET V == Vals(H, Str.cloud, ci)
      P == {x \in {Cloud1(V[i]) : i \in DOMAIN V} : x.st # "bad"}
  IN IF V = <<>> THEN Absent
     ELSE IF P = {} THEN Bad
     ELSE Read(IF Len(V) = 1 /\ \A x \in P : x.st = "good" THEN "good" ELSE "either",
               {<<High(x.t), Low(x.t)>> : x \in P}, {x.s : x \in P}, UNION {x.F : x \in P}, {<<>>}, Baggage(H, ci))

\* ---- the binary carrier: protocol buffer fields <<number, wire type, contents>>
\* st: "ok", "cut" (ends too early) or "odd" (not what a writer makes; nothing is said)
RECURSIVE VarLen(_, _)
VarLen(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] < 128 THEN 1 ELSE LET n == VarLen(b, i + 1) IN IF n = 0 THEN 0 ELSE n + 1
RECURSIVE VarNum(_, _, _)
VarNum(b, i, n) == IF n = 0 THEN 0 ELSE (b[i] % 128) + 128 * VarNum(b, i + 1, n - 1)
RECURSIVE Fields(_, _, _)
Fields(b, i, acc) ==
  IF i > Len(b) THEN [st |-> "ok", f |-> acc]
  ELSE LET n == VarLen(b, i) IN
    IF n = 0 THEN [st |-> IF Len(b) - i >= 9 THEN "odd" ELSE "cut"]
    ELSE IF n > 4 THEN [st |-> "odd"]
    ELSE LET key == VarNum(b, i, n)
             w == key % 8
             j == i + n
             no == key \div 8
             Take(k) == IF j + k - 1 > Len(b) THEN [st |-> "cut"] ELSE Fields(b, j + k, Append(acc, <<no, w, SubSeq(b, j, j + k - 1)>>))
         IN IF no = 0 THEN [st |-> "odd"]
            ELSE CASE w = 0 -> LET m == VarLen(b, j) IN IF m = 0 THEN [st |-> IF Len(b) - j >= 9 THEN "odd" ELSE "cut"] ELSE IF m > 10 THEN [st |-> "odd"] ELSE Take(m)
                   [] w = 1 -> Take(8)
                   [] w = 5 -> Take(4)
                   [] w = 2 -> LET m == VarLen(b, j) IN
                               IF m = 0 THEN [st |-> IF Len(b) - j >= 9 THEN "odd" ELSE "cut"] ELSE IF m > 4 THEN [st |-> "odd"]
                               ELSE LET k == VarNum(b, j, m) IN
                                    IF j + m + k - 1 > Len(b) THEN [st |-> "cut"]
                                    ELSE Fields(b, j + m + k, Append(acc, <<no, w, SubSeq(b, j + m, j + m + k - 1)>>))
                   [] OTHER -> [st |-> "odd"]
Of(f, no, w) == SelectSeq(f, LAMBDA x : x[1] = no /\ x[2] = w)
LastOf(f, no, w, default) == LET s == Of(f, no, w) IN IF s = <<>> THEN default ELSE s[Len(s)][3]
\* eight bytes, lowest first, as digits
Fixed(b) == [i \in 1..16 |-> LET x == b[8 - (i - 1) \div 2] IN IF i % 2 = 1 THEN x \div 16 ELSE x % 16]
RECURSIVE Utf8(_, _)
Utf8(s, i) ==
  LET C(k) == i + k <= Len(s) /\ s[i + k] \in 128..191 IN
  IF i > Len(s) THEN TRUE
  ELSE IF s[i] < 128 THEN Utf8(s, i + 1)
  ELSE IF s[i] \in 194..223 THEN C(1) /\ Utf8(s, i + 2)
  ELSE IF s[i] \in 224..239 THEN C(1) /\ C(2) /\ (s[i] = 224 => s[i + 1] >= 160) /\ (s[i] = 237 => s[i + 1] < 160) /\ Utf8(s, i + 3)
  ELSE IF s[i] \in 240..244 THEN C(1) /\ C(2) /\ C(3) /\ (s[i] = 240 => s[i + 1] >= 144) /\ (s[i] = 244 => s[i + 1] < 144) /\ Utf8(s, i + 4)
  ELSE FALSE
RECURSIVE Concat(_)
Concat(f) == IF f = <<>> THEN <<>> ELSE f[1][3] \o Concat(Tail(f))
Odd == [st |-> "odd"]
Worst(S) == IF "cut" \in S THEN "cut" ELSE IF "odd" \in S THEN "odd" ELSE "ok"
Binary(b) ==
  LET top == Fields(b, 1, <<>>) IN
  IF top.st = "cut" THEN Bad ELSE IF top.st = "odd" THEN Odd
  ELSE LET ctx == Of(top.f, 2, 2) IN
  IF ctx = <<>> THEN Bad
  ELSE LET parts == {Fields(ctx[i][3], 1, <<>>).st : i \in DOMAIN ctx}
           in == Fields(Concat(ctx), 1, <<>>)
  IN IF Worst(parts) = "cut" THEN Bad ELSE IF Worst(parts) = "odd" \/ in.st # "ok" THEN Odd
  ELSE LET E == Of(in.f, 4, 2)
           es == [i \in DOMAIN E |-> Fields(E[i][3], 1, <<>>)]
  IN IF Worst({es[i].st : i \in DOMAIN E}) = "cut" THEN Bad ELSE IF \E i \in DOMAIN E : es[i].st = "odd" THEN Odd
  ELSE LET kv == [i \in DOMAIN E |-> <<LastOf(es[i].f, 1, 2, <<>>), LastOf(es[i].f, 2, 2, <<>>)>>]
           last == {i \in DOMAIN kv : \A j \in DOMAIN kv : j > i => kv[j][1] # kv[i][1]}
           bag == [k \in {Lower(kv[i][1]) : i \in last} |-> {kv[i][2] : i \in {j \in last : Lower(kv[j][1]) = k}}]
           s == LastOf(in.f, 3, 0, <<0>>)
           plain == (\A i \in DOMAIN top.f : top.f[i][1] = 2 /\ top.f[i][2] = 2) /\ Len(ctx) = 1
                    /\ (\A i \in DOMAIN in.f : <<in.f[i][1], in.f[i][2]>> \in {<<1, 1>>, <<2, 1>>, <<3, 0>>, <<4, 2>>})
                    /\ (\A i \in DOMAIN E : \A j \in DOMAIN es[i].f : es[i].f[j][1] \in {1, 2} /\ es[i].f[j][2] = 2)
       IN Read(IF plain /\ \A i \in DOMAIN kv : Utf8(kv[i][1], 1) /\ Utf8(kv[i][2], 1) THEN "good" ELSE "either",
               {<<Zeros(16), Fixed(LastOf(in.f, 1, 1, Zeros(8)))>>}, {Fixed(LastOf(in.f, 2, 1, Zeros(8)))},
               {IF \A i \in DOMAIN s : s[i] % 128 = 0 THEN 0 ELSE 1}, {<<>>}, bag)

\* ---- x-ot-span-context: base64 of the binary carrier
B64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64
\* <<ok, bytes>>
Unbase64(s) ==
  LET n == Len(s)
      pad == IF n > 0 /\ s[n] = 61 THEN (IF n > 1 /\ s[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
      v == [i \in 1..n - pad |-> B64(s[i])]
      V(i) == IF i > n - pad THEN 0 ELSE v[i]
      m == (n \div 4) * 3 - pad
      Byte(k) == LET q == (k - 1) \div 3 r == (k - 1) % 3 IN
        CASE r = 0 -> V(4 * q + 1) * 4 + V(4 * q + 2) \div 16
          [] r = 1 -> (V(4 * q + 2) % 16) * 16 + V(4 * q + 3) \div 4
          [] r = 2 -> (V(4 * q + 3) % 4) * 64 + V(4 * q + 4)
  IN IF n = 0 \/ n % 4 # 0 \/ \E i \in 1..n - pad : v[i] = 64 THEN <<FALSE, <<>>>>
     ELSE IF (pad = 2 /\ V(n - 2) % 16 # 0) \/ (pad = 1 /\ V(n - 1) % 4 # 0) THEN <<FALSE, <<>>>>
     ELSE <<TRUE, [k \in 1..m |-> Byte(k)]>>
Envoy1(v) == LET d == Unbase64(v) IN IF d[1] THEN Binary(d[2]) ELSE Bad
Envoy(H, ci) ==
  LET V == Vals(H, Str.envoy, ci)
      R == {Envoy1(V[i]) : i \in DOMAIN V}
      G == {x \in R : x.st \in {"good", "either"}}
  IN IF V = <<>> THEN Absent
     ELSE IF Len(V) = 1 THEN Envoy1(V[1])
     ELSE IF \E x \in R : x.st = "odd" THEN Odd
     ELSE IF G = {} THEN Bad
     ELSE LET K == UNION {DOMAIN x.bag : x \in G} IN
          IF \A x, y \in G : x.bag = y.bag
          THEN Read("either", UNION {x.T : x \in G}, UNION {x.S : x \in G}, UNION {x.F : x \in G}, {<<>>}, (CHOOSE x \in G : TRUE).bag)
          ELSE Odd

\* ---- lists of formats
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET f == Uniq(Front(s)) IN IF \E i \in DOMAIN f : f[i] = s[Len(s)] THEN f ELSE Append(f, s[Len(s)])
Configured(modes, single) == IF single THEN <<"e">> ELSE IF modes # <<>> THEN modes ELSE <<"l">>
Injected(m) == Uniq(m)
RECURSIVE Fallback(_)
Fallback(m) == IF m = <<>> THEN <<>> ELSE (IF m[1] = "e" THEN <<"e", "l">> ELSE <<m[1]>>) \o Fallback(Tail(m))
Tried(m) == Uniq(Fallback(m))

\* envoy's header is looked up by the carrier itself where it can
ReadAs(f, H, ci, look) ==
  CASE f = "l" -> MultiHeader(H, ci, Str.ltrace, Str.lspan, Str.lsampled)
    [] f = "b" -> MultiHeader(H, ci, Str.btrace, Str.bspan, Str.bsampled)
    [] f = "t" -> TraceContext(H, ci)
    [] f = "c" -> CloudTrace(H, ci)
    [] f = "e" -> Envoy(H, IF look = "n" THEN ci ELSE look = "i")
\* the first format that is there
RECURSIVE First(_, _, _, _)
First(fs, H, ci, look) ==
  IF fs = <<>> THEN Absent
  ELSE LET r == ReadAs(fs[1], H, ci, look) IN IF r.st = "absent" THEN First(Tail(fs), H, ci, look) ELSE r

\* ---- writing, as the formats prescribe it: c = [hi, lo, sid, fl, ts, bag]
Bit(c) == IF c.fl = 1 THEN One ELSE Zero
Varint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128), n \div 128>>
Delim(no, b) == <<no * 8 + 2>> \o Varint(Len(b)) \o b
Eight(d) == [i \in 1..8 |-> d[17 - 2 * i] * 16 + d[18 - 2 * i]]
RECURSIVE Entries(_)
Entries(bag) == IF bag = <<>> THEN <<>> ELSE Delim(4, Delim(1, bag[1][1]) \o Delim(2, bag[1][2])) \o Entries(Tail(bag))
WriteBinary(c) == Delim(2, <<9>> \o Eight(c.lo) \o <<17>> \o Eight(c.sid) \o <<24, c.fl>> \o Entries(c.bag))
Char64(x) == IF x < 26 THEN x + 65 ELSE IF x < 52 THEN x + 71 ELSE IF x < 62 THEN x - 4 ELSE IF x = 62 THEN 43 ELSE 47
Base64(b) ==
  LET n == Len(b)
      B(i) == IF i > n THEN 0 ELSE b[i]
      q == (n + 2) \div 3
  IN [k \in 1..4 * q |-> LET g == (k - 1) \div 4 r == (k - 1) % 4 IN
       IF 3 * g + r > n THEN 61
       ELSE Char64(CASE r = 0 -> B(3 * g + 1) \div 4
                     [] r = 1 -> (B(3 * g + 1) % 4) * 16 + B(3 * g + 2) \div 16
                     [] r = 2 -> (B(3 * g + 2) % 16) * 4 + B(3 * g + 3) \div 64
                     [] r = 3 -> B(3 * g + 3) % 64)]
Write(f, c) ==
  CASE f = "l" -> <<<<Str.ltrace, Text(c.lo)>>, <<Str.lspan, Text(c.sid)>>, <<Str.lsampled, Bit(c)>>>>
    [] f = "b" -> <<<<Str.btrace, Text(IF c.hi = Zeros(16) THEN c.lo ELSE c.hi \o c.lo)>>, <<Str.bspan, Text(c.sid)>>, <<Str.bsampled, Bit(c)>>>>
    [] f = "t" -> <<<<Str.traceparent, <<48, 48, Dash>> \o Text(c.hi) \o Text(c.lo) \o <<Dash>> \o Text(c.sid) \o <<Dash, 48>> \o Bit(c)>>>>
                  \o (IF c.ts = <<>> THEN <<>> ELSE <<<<Str.tracestate, c.ts>>>>)
    [] f = "c" -> <<<<Str.cloud, Text(c.hi) \o Text(c.lo) \o <<Slash>> \o ToDec(c.sid) \o <<Semi, 111, 61>> \o Bit(c)>>>>
    [] f = "e" -> <<<<Str.envoy, Base64(WriteBinary(c))>>>>
Width(f, c) == <<IF f \in {"l", "e"} THEN Zeros(16) ELSE c.hi, c.lo>>

\* ---- what may come of a carrier
LowerBag(bag) == [k \in {Lower(bag[i][1]) : i \in DOMAIN bag} |-> {bag[i][2] : i \in {j \in DOMAIN bag : Lower(bag[j][1]) = k}}]
Spells(r, hi, lo, sid, fl, ts, bag) ==
  /\ <<hi, lo>> \in r.T /\ sid \in r.S /\ fl \in r.F /\ ts \in r.ts
  /\ {bag[i][1] : i \in DOMAIN bag} = DOMAIN r.bag /\ Cardinality(DOMAIN r.bag) = Len(bag)
  /\ \A i \in DOMAIN bag : bag[i][2] \in r.bag[bag[i][1]]
MayRefuse(r) == r.st \in {"bad", "either", "odd"}
MayFindNothing(r) == r.st = "absent"
MayYield(r, e) == r.st = "odd" \/ (r.st \in {"good", "either"} /\ Spells(r, e.hi, e.lo, e.sid, e.fl, e.ts, e.bag))
\* one format of a carrier spells exactly the context c, in the width it has
IsWritten(f, r, c, bag) ==
  /\ r.st = "good" /\ r.T = {Width(f, c)} /\ r.S = {c.sid} /\ r.F = {c.fl} /\ r.ts = {IF f = "t" THEN c.ts ELSE <<>>}
  /\ bag => r.bag = LowerBag(c.bag)
==============================================================================

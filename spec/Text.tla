-------------------------------- MODULE Text --------------------------------
(* Strings are sequences of Unicode code points; octet strings are          *)
(* sequences of 0..255.  Optional values are <<>> (absent) or <<x>>.        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

None == <<>>
Some(x) == <<x>>
IsSome(o) == o # <<>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* least index >= i at which s holds a member of C, or 0
Find(s, i, C) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA c : c \in C)
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
\* (folds rather than recursion where texts may be long: TLC evaluates them in linear time)
Flatten(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
\* the concatenation of the pieces F yields for the indices of s
Pieces(s, F(_)) == FoldLeftDomain(LAMBDA x, i : x \o F(i), <<>>, s)
\* consume s from the left: at each position not yet passed, F yields a piece [o, n]: output and length
Consume(s, F(_)) ==
  FoldLeftDomain(LAMBDA x, i : IF i < x.at THEN x ELSE LET p == F(i) IN [at |-> i + p.n, o |-> x.o \o p.o],
                 [at |-> 1, o |-> <<>>], s).o
\* the parts of s between the occurrences of c
SplitAt(s, c) ==
  LET x == FoldLeftDomain(LAMBDA x, i : IF s[i] = c THEN [at |-> i + 1, o |-> Append(x.o, SubSeq(s, x.at, i - 1))] ELSE x,
                          [at |-> 1, o |-> <<>>], s)
  IN Append(x.o, From(s, x.at))
JoinSep(ss, sep) == Pieces(ss, LAMBDA i : IF i = 1 THEN ss[1] ELSE sep \o ss[i])

(* characters *)
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c)   == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)  == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexUp(n)   == IF n < 10 THEN 48 + n ELSE 55 + n
LowerC(c)  == IF IsUpper(c) THEN c + 32 ELSE c
UpperC(c)  == IF IsLower(c) THEN c - 32 ELSE c
Lower(s)   == [i \in 1..Len(s) |-> LowerC(s[i])]
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

IsUnresA(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}
IsGenDelim(c) == c \in {58, 47, 63, 35, 91, 93, 64}
IsSubDelim(c) == c \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
IsUcs(c) ==
  \/ c >= 160 /\ c <= 55295
  \/ c >= 63744 /\ c <= 64975
  \/ c >= 65008 /\ c <= 65519
  \/ c >= 65536 /\ c < 917504 /\ c % 65536 < 65534
  \/ c >= 921600 /\ c <= 983037
IsPriv(c) == (c >= 57344 /\ c <= 63743) \/ (c >= 983040 /\ c % 65536 < 65534)
IsUnres(sp, c) == IF c < 128 THEN IsUnresA(c) ELSE sp = "iri" /\ IsUcs(c)

(* UTF-8 *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Str(s) == Pieces(s, LAMBDA i : Utf8(s[i]))
\* Well-formed UTF-8 (Unicode table 3-7): length of the sequence introduced by lead byte b, 0 if none.
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3
              ELSE IF b < 245 THEN 4 ELSE 0
Cont(b) == b >= 128 /\ b < 192
\* scalar value encoded by the first LeadLen octets of bs if well-formed, else -1
Scalar(bs) ==
  LET n == IF bs = <<>> THEN 0 ELSE LeadLen(bs[1]) IN
  IF n = 0 \/ Len(bs) < n THEN -1
  ELSE IF \E i \in 2..n : ~Cont(bs[i]) THEN -1
  ELSE LET v == CASE n = 1 -> bs[1]
                  [] n = 2 -> (bs[1] - 192) * 64 + (bs[2] - 128)
                  [] n = 3 -> (bs[1] - 224) * 4096 + (bs[2] - 128) * 64 + (bs[3] - 128)
                  [] n = 4 -> (bs[1] - 240) * 262144 + (bs[2] - 128) * 4096 + (bs[3] - 128) * 64 + (bs[4] - 128)
       IN IF n = 3 /\ (v < 2048 \/ (v >= 55296 /\ v < 57344)) THEN -1
          ELSE IF n = 4 /\ (v < 65536 \/ v > 1114111) THEN -1 ELSE v
ScalarAt(bs, i) == Scalar(SubSeq(bs, i, Min2(i + 3, Len(bs))))
\* every octet that continues nothing begins a character, and every other belongs to one that reaches it
Utf8Valid(bs) ==
  \A i \in 1..Len(bs) :
    IF Cont(bs[i]) THEN \E k \in 1..3 : k < i /\ LeadLen(bs[i - k]) > k /\ \A j \in (i - k + 1)..i : Cont(bs[j])
    ELSE ScalarAt(bs, i) >= 0
Utf8Decode(bs) == Pieces(bs, LAMBDA i : IF Cont(bs[i]) THEN <<>> ELSE <<ScalarAt(bs, i)>>)

(* percent-encoding *)
Trip(b) == <<37, HexUp(b \div 16), HexUp(b % 16)>>
Trips(bs) == Pieces(bs, LAMBDA i : Trip(bs[i]))
PctChar(c) == Trips(Utf8(c))
\* is there a percent-encoded triplet at index i
IsTrip(s, i) == i + 2 <= Len(s) /\ s[i] = 37 /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
TripVal(s, i) == 16 * HexVal(s[i + 1]) + HexVal(s[i + 2])
\* octets of up to n consecutive triplets starting at i
RECURSIVE TripRun(_, _, _)
TripRun(s, i, n) == IF n = 0 \/ ~IsTrip(s, i) THEN <<>> ELSE <<TripVal(s, i)>> \o TripRun(s, i + 3, n - 1)
\* every '%' starts a triplet
PctOk(s) == \A i \in 1..Len(s) : s[i] = 37 => IsTrip(s, i)
AllOk(s, P(_)) == \A i \in 1..Len(s) : IF s[i] = 37 THEN IsTrip(s, i) ELSE P(s[i])

\* lexicographic order: -1, 0, 1
Order(a, b) ==
  LET n == Min2(Len(a), Len(b))
      k == SelectInSeq([i \in 1..n |-> a[i] # b[i]], LAMBDA x : x)
  IN IF k # 0 THEN (IF a[k] < b[k] THEN -1 ELSE 1)
     ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1

ToStrSet(ss) == {ss[i] : i \in 1..Len(ss)}

=============================================================================

---------------------------------- MODULE Big ----------------------------------
(* Arbitrary-precision naturals: little-endian sequences of limbs below 10^4 without a zero most
   significant limb (<<>> is 0); and integers [neg, m].  TLC's own integers have 32 bits.     *)
EXTENDS Integers, Sequences
B == 10000
RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BOfInt(_)
BOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BOfInt(n \div B)
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE BAddFrom(_, _, _, _, _)
BAddFrom(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET v == At(a, i) + At(b, i) + c IN BAddFrom(a, b, i + 1, v \div B, Append(acc, v % B))
BAdd(a, b) == BAddFrom(a, b, 1, 0, <<>>)
RECURSIVE BSubFrom(_, _, _, _, _)   \* a >= b
BSubFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN BTrim(acc)
  ELSE LET v == (a[i] - At(b, i)) - c IN BSubFrom(a, b, i + 1, IF v < 0 THEN 1 ELSE 0, Append(acc, IF v < 0 THEN v + B ELSE v))
BSub(a, b) == BSubFrom(a, b, 1, 0, <<>>)
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpFrom(a, b, Len(a))
(* times / divided by a number of at most 10^4 (the quotient and the remainder) *)
RECURSIVE BMulFrom(_, _, _, _, _)
BMulFrom(a, n, i, c, acc) ==
  IF i > Len(a) THEN acc \o BOfInt(c)
  ELSE LET v == a[i] * n + c IN BMulFrom(a, n, i + 1, v \div B, Append(acc, v % B))
BMulInt(a, n) == IF n = 0 THEN <<>> ELSE BMulFrom(a, n, 1, 0, <<>>)
RECURSIVE BDivFrom(_, _, _, _, _)
BDivFrom(a, n, i, r, q) ==
  IF i = 0 THEN [q |-> BTrim(q), r |-> r]
  ELSE LET v == r * B + a[i] IN BDivFrom(a, n, i - 1, v % n, [q EXCEPT ![i] = v \div n])
BDivInt(a, n) == BDivFrom(a, n, Len(a), 0, a)
RECURSIVE BShift(_, _)     \* times 10^(4 k)
BShift(a, k) == IF k = 0 \/ a = <<>> THEN a ELSE BShift(<<0>> \o a, k - 1)
RECURSIVE BMulAcc(_, _, _, _)
BMulAcc(a, b, i, acc) == IF i > Len(b) THEN acc ELSE BMulAcc(a, b, i + 1, BAdd(acc, BShift(BMulInt(a, b[i]), i - 1)))
BMul(a, b) == BMulAcc(a, b, 1, <<>>)
RECURSIVE BPow(_, _)
BPow(n, k) == IF k = 0 THEN <<1>> ELSE BMulInt(BPow(n, k - 1), n)
(* quotient of small operands by bits: the largest q with q * b <= a *)
RECURSIVE BDivBits(_, _, _)
BDivBits(a, b, m) ==   \* m = <<multiple of b, its factor>> pairs are generated downwards
  IF BCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
  ELSE LET x == BDivBits(a, BMulInt(b, 2), m) IN
         IF BCmp(x.r, b) >= 0 THEN [q |-> BAdd(BMulInt(x.q, 2), <<1>>), r |-> BSub(x.r, b)]
         ELSE [q |-> BMulInt(x.q, 2), r |-> x.r]
BDiv(a, b) == BDivBits(a, b, 0)
RECURSIVE BOfBytes(_)      \* little-endian bytes
BOfBytes(bs) == IF bs = <<>> THEN <<>> ELSE BAdd(BMulInt(BOfBytes(Tail(bs)), 256), BOfInt(Head(bs)))

(* ---- integers ---- *)
Z(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
ZInt(n) == IF n < 0 THEN Z(TRUE, BOfInt(-n)) ELSE Z(FALSE, BOfInt(n))
(* two's complement little-endian bytes (signed) *)
ZOfBytes(bs, signed) ==
  IF signed /\ bs[Len(bs)] >= 128 THEN Z(TRUE, BSub(BMulInt(BPow(256, Len(bs) - 1), 256), BOfBytes(bs)))
  ELSE Z(FALSE, BOfBytes(bs))
ZNeg(a) == Z(~a.neg, a.m)
ZAdd(a, b) == IF a.neg = b.neg THEN Z(a.neg, BAdd(a.m, b.m))
              ELSE IF BCmp(a.m, b.m) >= 0 THEN Z(a.neg, BSub(a.m, b.m)) ELSE Z(b.neg, BSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.neg # b.neg, BMul(a.m, b.m))
ZCmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1) ELSE IF a.neg THEN BCmp(b.m, a.m) ELSE BCmp(a.m, b.m)
(* truncated towards zero *)
ZQuot(a, b) == Z(a.neg # b.neg, BDiv(a.m, b.m).q)
ZFloorDivPow2(a, n) == LET d == BDiv(a.m, n) IN Z(a.neg, IF a.neg /\ d.r # <<>> THEN BAdd(d.q, <<1>>) ELSE d.q)
=============================================================================

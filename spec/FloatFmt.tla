-------------------------------- MODULE FloatFmt --------------------------------
(* Floating point values.  Decode(ty, bytes) takes an IEEE 754 binary32/binary64 value apart;
   Shortest(x) is the decimal, with the fewest significant digits, that reads back to the same value
   (the closest of them to the exact value), found by exact arithmetic; RoundDec rounds a decimal half
   to even; the rest are the notations.  A decimal [d, e] is the digits d (most significant first)
   times 10^e.                                                                              *)
EXTENDS Big
Last(s) == s[Len(s)]
Zs(n) == [i \in 1..n |-> 0]   \* n zero digits
RECURSIVE BPow2(_)
BPow2(n) == IF n >= 13 THEN BMulInt(BPow2(n - 13), 8192) ELSE BPow(2, n)
BPow10(n) == [i \in 1..(n \div 4) |-> 0] \o BPow(10, n % 4)
(* long division by limbs (Knuth's algorithm D): both are scaled so that the top limb of b is at least B/2 *)
RECURSIVE LDFix(_, _, _)
LDFix(rem, b, q) ==   \* the estimate q may be too large by one or two
  LET p == BMulInt(b, q) IN IF BCmp(p, rem) > 0 THEN LDFix(rem, b, q - 1) ELSE [q |-> q, r |-> BSub(rem, p)]
RECURSIVE LDSteps(_, _, _, _, _)
LDSteps(a, i, b, rem, q) ==   \* a[i], a[i-1] ... a[1] remain to be brought down
  IF i = 0 THEN [q |-> BTrim(q), r |-> rem]
  ELSE LET r2 == BTrim(<<a[i]>> \o rem)
           n == Len(b)
           est == IF Len(r2) < n THEN 0
                  ELSE LET h == (At(r2, n + 1) * B + r2[n]) \div b[n] IN IF h > B - 1 THEN B - 1 ELSE h
           s == LDFix(r2, b, est)
       IN LDSteps(a, i - 1, b, s.r, <<s.q>> \o q)
LDiv(a0, b0) ==
  LET f == B \div (b0[Len(b0)] + 1)
      a == BMulInt(a0, f)
      b == BMulInt(b0, f)
      k == IF Len(a) >= Len(b) THEN Len(a) - Len(b) + 1 ELSE 0    \* quotient limbs
  IN IF k = 0 THEN [q |-> <<>>, exact |-> a0 = <<>>]
     ELSE LET x == LDSteps(a, k, b, BTrim(SubSeq(a, k + 1, Len(a))), <<>>) IN [q |-> x.q, exact |-> x.r = <<>>]
(* decimal digits of a natural number, most significant first *)
RECURSIVE LimbDigits(_, _)
LimbDigits(x, n) == IF n = 0 THEN <<>> ELSE Append(LimbDigits(x \div 10, n - 1), x % 10)
RECURSIVE AllDigits(_, _)
AllDigits(a, i) == IF i = 0 THEN <<>> ELSE LimbDigits(a[i], 4) \o AllDigits(a, i - 1)
RECURSIVE StripLead(_)
StripLead(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN StripLead(Tail(ds)) ELSE ds
DecDigits(a) == StripLead(AllDigits(a, Len(a)))
RECURSIVE BitLen(_)
BitLen(a) == IF a = <<>> THEN 0 ELSE 1 + BitLen(BDivInt(a, 2).q)

(* ---- taking a value apart ---- *)
Decode(ty, b) ==
  LET dbl == ty = "double"
      top == Last(b)
      ex == IF dbl THEN (top % 128) * 16 + (b[7] \div 16) ELSE (top % 128) * 2 + (b[3] \div 128)
      frac == BOfBytes(IF dbl THEN SubSeq(b, 1, 6) \o <<b[7] % 16>> ELSE SubSeq(b, 1, 2) \o <<b[3] % 128>>)
      nibs == IF dbl THEN <<b[7] % 16, b[6] \div 16, b[6] % 16, b[5] \div 16, b[5] % 16, b[4] \div 16, b[4] % 16, b[3] \div 16, b[3] % 16, b[2] \div 16, b[2] % 16, b[1] \div 16, b[1] % 16>>
              ELSE LET h == (b[3] % 128) IN <<h \div 8, (h % 8) * 2 + (b[2] \div 128), (b[2] \div 8) % 16, (b[2] % 8) * 2 + (b[1] \div 128), (b[1] \div 8) % 16, (b[1] % 8) * 2>>
      mbits == IF dbl THEN 52 ELSE 23
      bias == IF dbl THEN 1023 ELSE 127
      emax == IF dbl THEN 2047 ELSE 255
      m == IF ex = 0 THEN frac ELSE BAdd(frac, BPow2(mbits))
  IN [neg |-> top >= 128,
      cls |-> IF ex = emax THEN (IF frac = <<>> THEN "inf" ELSE "nan") ELSE "num",
      m |-> m,                                    \* the value is m * 2^q
      q |-> ((IF ex = 0 THEN 1 ELSE ex) - bias) - mbits,
      even |-> b[1] % 2 = 0,
      asym |-> frac = <<>> /\ ex > 1,             \* the neighbour below is at half the distance
      lead |-> IF ex = 0 THEN 0 ELSE 1, nibs |-> nibs,
      bex |-> IF m = <<>> THEN 0 ELSE (IF ex = 0 THEN 1 ELSE ex) - bias]

(* ---- the shortest decimal ---- *)
FloorTo(a, j) == LET c == j \div 4
                     lo == [i \in 1..c |-> 0]
                     p == IF j % 4 = 0 THEN 1 ELSE IF j % 4 = 1 THEN 10 ELSE IF j % 4 = 2 THEN 100 ELSE 1000
                 IN IF Len(a) <= c THEN <<>>
                    ELSE BTrim(lo \o <<a[c + 1] - (a[c + 1] % p)>> \o SubSeq(a, c + 2, Len(a)))
RECURSIVE BestExp(_, _, _)
BestExp(lo, hi, j) == IF BCmp(FloorTo(hi, j), lo) >= 0 THEN j ELSE BestExp(lo, hi, j - 1)
Shortest(x) ==
  IF x.m = <<>> THEN [d |-> <<0>>, e |-> 0]
  ELSE LET n4 == BMulInt(x.m, 4)
           lo4 == BSub(n4, IF x.asym THEN <<1>> ELSE <<2>>)
           hi4 == BAdd(n4, <<2>>)
           k == ((((BitLen(x.m) - 1) + x.q) * 1233) \div 4096) - 18
           x2 == x.q - 2
           \* n * 2^x2 / 10^k, with the common powers of two cancelled: 10^k = 2^k 5^k
           s2 == x2 - k
           num == BMul(IF s2 > 0 THEN BPow2(s2) ELSE <<1>>, IF k < 0 THEN BPow(5, -k) ELSE <<1>>)
           den == BMul(IF s2 < 0 THEN BPow2(-s2) ELSE <<1>>, IF k > 0 THEN BPow(5, k) ELSE <<1>>)
           L == LDiv(BMul(num, lo4), den)
           V == LDiv(BMul(num, n4), den)
           H == LDiv(BMul(num, hi4), den)
           lo == IF L.exact /\ x.even THEN L.q ELSE BAdd(L.q, <<1>>)
           hi == IF H.exact /\ ~x.even THEN BSub(H.q, <<1>>) ELSE H.q
           j == BestExp(lo, hi, 4 * Len(hi))
           p == BPow10(j)
           f == FloorTo(V.q, j)
           c == BAdd(f, p)
           cmp == BCmp(BMulInt(BSub(V.q, f), 2), p)        \* is the exact value below the middle of [f, c]?
           fd == DecDigits(f)
           feven == IF Len(fd) <= j THEN TRUE ELSE fd[Len(fd) - j] % 2 = 0
           near == IF cmp < 0 THEN f ELSE IF cmp > 0 \/ ~V.exact THEN c ELSE IF feven THEN f ELSE c
           in(y) == BCmp(lo, y) <= 0 /\ BCmp(y, hi) <= 0
           best == IF in(near) THEN near ELSE IF near = f THEN c ELSE f
           ds == DecDigits(best)
       IN [d |-> SubSeq(ds, 1, Len(ds) - j), e |-> k + j]

(* ---- rounding: keep the n most significant digits (n may be 0), half to even ---- *)
RECURSIVE Incr(_)
Incr(ds) == IF ds = <<>> THEN <<1>> ELSE IF Last(ds) < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1] ELSE Append(Incr(SubSeq(ds, 1, Len(ds) - 1)), 0)
RoundDec(x, n) ==
  IF n >= Len(x.d) THEN x
  ELSE LET kept == SubSeq(x.d, 1, n)
           r == x.d[n + 1]
           more == \E i \in (n + 2)..Len(x.d) : x.d[i] # 0
           up == r > 5 \/ (r = 5 /\ (more \/ (n > 0 /\ kept[n] % 2 = 1)))
       IN [d |-> IF up THEN Incr(kept) ELSE kept, e |-> x.e + (Len(x.d) - n)]
RECURSIVE IncrHex(_)
IncrHex(ds) == IF Last(ds) < 15 THEN [ds EXCEPT ![Len(ds)] = @ + 1] ELSE IncrHex(SubSeq(ds, 1, Len(ds) - 1)) \o <<0>>
RECURSIVE TrimTail(_)
TrimTail(ds) == IF ds # <<>> /\ Last(ds) = 0 THEN TrimTail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Exp10(x) == Len(x.d) + x.e - 1
IsZero(x) == \A i \in 1..Len(x.d) : x.d[i] = 0

(* ---- notations: [i |-> integer digits, f |-> fraction digits, x |-> TRUE iff scientific, e |-> exponent] ---- *)
FixedOf(x, p) ==    \* p < 0: all the digits
  LET drop == IF p < 0 THEN 0 ELSE (-x.e) - p
      y == IF drop <= 0 THEN x ELSE IF Len(x.d) - drop < 0 THEN [d |-> <<>>, e |-> -p] ELSE RoundDec(x, Len(x.d) - drop)
      n == Len(y.d) + y.e          \* digits of the integer part
      ip == IF n <= 0 THEN <<0>> ELSE IF y.e >= 0 THEN y.d \o Zs(y.e) ELSE SubSeq(y.d, 1, n)
      fp == IF y.e >= 0 THEN <<>> ELSE IF n <= 0 THEN Zs(-n) \o y.d ELSE SubSeq(y.d, n + 1, Len(y.d))
  IN [i |-> IF IsZero(x) THEN <<0>> ELSE ip, f |-> IF p < 0 THEN fp ELSE fp \o Zs(p - Len(fp)), x |-> FALSE, e |-> 0]
SciOf(x, p) ==
  LET y == IF p < 0 THEN x ELSE RoundDec(x, p + 1)
      ex == IF IsZero(x) THEN 0 ELSE Exp10(y)
      fp == SubSeq(y.d, 2, IF p >= 0 /\ Len(y.d) > p + 1 THEN p + 1 ELSE Len(y.d))
  IN [i |-> <<y.d[1]>>, f |-> IF p < 0 THEN fp ELSE fp \o Zs(p - Len(fp)), x |-> TRUE, e |-> ex]
(* known: whether the deviation KF-GEN-ALT is wanted (see KNOWN_FINDINGS): with `*`, the zeros that rounding
   leaves at the end of the fraction are removed all the same, unless a single digit is left          *)
GenOf(x, p, alt, known) ==
  LET pp == IF p = 0 THEN 1 ELSE p
      y == RoundDec(x, pp)
      ex == IF IsZero(x) THEN 0 ELSE Exp10(y)
      t == IF ex < -4 \/ ex >= pp THEN SciOf(x, pp - 1) ELSE FixedOf(x, (pp - 1) - ex)
      rounded == Len(x.d) > pp /\ Len(y.d) = pp       \* (a carry gives one more digit)
  IN IF alt /\ ~(known /\ rounded) THEN t ELSE [t EXCEPT !.f = TrimTail(@)]
=============================================================================

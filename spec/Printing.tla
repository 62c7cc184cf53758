------------------------------- MODULE Printing -------------------------------
(* What printing an argument means: Render(env, arg) is the sequence of units of the
   destination's charset and the width (in 1/65536 of a unit of width).
   env = [cs |-> charset of the destination, ct |-> its character type, fs |-> facets, outermost first]
   a facet = [c |-> category, on |-> types it applies to (<<"*">>: all), ...value]         *)
EXTENDS Charset, Grouping, WidthCalc
FF == INSTANCE FloatFmt

Zeros(n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> 48]
RECURSIVE Times(_, _)
Times(u, n) == IF n <= 0 THEN <<>> ELSE IF n % 2 = 0 THEN Times(u \o u, n \div 2) ELSE u \o Times(u \o u, n \div 2)
RECURSIVE EncAll(_, _)
EncAll(cs, cps) == IF cps = <<>> THEN <<>> ELSE EncodeChar(cs, Head(cps)) \o EncAll(cs, Tail(cps))

(* facet lookup: the last one of the category that accepts the type *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Accepts(f, c, ty) == f.c = c /\ (f.on = <<"*">> \/ InSeq(ty, f.on))
RECURSIVE LastFacet(_, _, _, _)
LastFacet(fs, c, ty, i) == IF i = 0 THEN 0 ELSE IF Accepts(fs[i], c, ty) THEN i ELSE LastFacet(fs, c, ty, i - 1)
HasFacet(env, c, ty) == LastFacet(env.fs, c, ty, Len(env.fs)) # 0
FacetOf(env, c, ty) == env.fs[LastFacet(env.fs, c, ty, Len(env.fs))]
Case(env, ty) == IF HasFacet(env, "case", ty) THEN FacetOf(env, "case", ty).v ELSE "lower"
NoPunct == [g |-> <<>>, fin |-> FALSE, sep |-> 44, dec |-> 46]
NumPunct(env, base, ty) ==
  LET c == CASE base = 10 -> "np10" [] base = 16 -> "np16" [] base = 8 -> "np8" [] base = 2 -> "np2"
  IN IF HasFacet(env, c, ty) THEN FacetOf(env, c, ty) ELSE NoPunct
WCalc(env, ty) == IF HasFacet(env, "wc", ty) THEN FacetOf(env, "wc", ty).v ELSE "std"

(* padding: f = [fill, w, al] *)
FillCount(f, width) == IF width < f.w THEN Round(f.w - width) ELSE 0
SatW(a, b) == IF a > WMax - b THEN WMax ELSE a + b      \* widths saturate (both >= 0)
Pad(env, f, txt, width) ==
  LET n == FillCount(f, width)
      u == EncodeChar(env.cs, f.fill)
      l == CASE f.al = "<" -> 0 [] f.al = "^" -> n \div 2 [] OTHER -> n
  IN [t |-> IF n <= 0 THEN txt ELSE Times(u, l) \o txt \o Times(u, n - l), w |-> SatW(width, IF n <= 0 THEN 0 ELSE Units2W(n))]

(* ---- integers: a value is the little-endian bytes of its two's complement form ---- *)
RECURSIVE NegLE(_, _)
NegLE(bs, c) == IF bs = <<>> THEN <<>>
                ELSE LET v == (255 - Head(bs)) + c IN <<v % 256>> \o NegLE(Tail(bs), v \div 256)
Negate(bs) == NegLE(bs, 1)
(* divide a big-endian byte sequence by d: quotient and remainder *)
RECURSIVE DivBE(_, _, _, _)
DivBE(bs, d, r, q) == IF bs = <<>> THEN [q |-> q, r |-> r]
                      ELSE LET v == r * 256 + Head(bs) IN DivBE(Tail(bs), d, v % d, Append(q, v \div d))
RECURSIVE Strip(_)
Strip(bs) == IF bs # <<>> /\ Head(bs) = 0 THEN Strip(Tail(bs)) ELSE bs
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* digits, most significant first, of a big-endian byte sequence *)
RECURSIVE DigitsBE(_, _, _)
DigitsBE(bs, d, acc) ==
  LET b == Strip(bs) IN
    IF b = <<>> THEN acc
    ELSE LET x == DivBE(b, d, 0, <<>>) IN DigitsBE(x.q, d, <<x.r>> \o acc)
Digits(bytesLE, base) == LET ds == DigitsBE(Rev(bytesLE), base, <<>>) IN IF ds = <<>> THEN <<0>> ELSE ds
DigitChar(d, case) == IF d < 10 THEN 48 + d ELSE IF case = "lower" THEN 87 + d ELSE 55 + d

(* the parts of a formatted integer *)
IntParts(env, a) ==
  LET neg == a.sg /\ a.base = 10 /\ a.v[Len(a.v)] >= 128
      case == Case(env, a.ty)
      ds == Digits(IF neg THEN Negate(a.v) ELSE a.v, a.base)
      zero == ds = <<0>>
      np == NumPunct(env, a.base, a.ty)
      grp == a.punct /\ (np.sep < 128 \/ Validate(env.cs, np.sep) # -1)
      chars == [i \in 1..Len(ds) |-> <<DigitChar(ds[i], case)>>]
      nsep == IF grp THEN SepCount(np.g, np.fin, Len(ds)) ELSE 0
      body == IF grp THEN Punctuate(chars, np.g, np.fin, << EncodeChar(env.cs, np.sep) >>) ELSE chars
      pre == CASE a.base = 10 -> IF neg THEN <<45>> ELSE IF a.sg /\ a.sign = "pos" THEN <<43>> ELSE <<>>
               [] a.base = 16 -> IF a.sb THEN <<48, IF case = "upper" THEN 88 ELSE 120>> ELSE <<>>
               [] a.base = 2 -> IF a.sb THEN <<48, IF case = "upper" THEN 66 ELSE 98>> ELSE <<>>
               [] a.base = 8 -> IF a.sb /\ ~zero THEN <<48>> ELSE <<>>
      fs == a.base = 10 /\ a.sg /\ ~neg /\ a.sign = "fill"   \* the fill character in place of the sign
      npre == Len(pre) + (IF fs THEN 1 ELSE 0)
      prec == IF a.base = 8 /\ pre # <<>> THEN a.prec - 1 ELSE a.prec
      z1 == prec - Len(ds)
      z2 == a.pad0 - (npre + Len(ds) + nsep)
      nz == IF z1 > z2 THEN (IF z1 > 0 THEN z1 ELSE 0) ELSE (IF z2 > 0 THEN z2 ELSE 0)
  IN [pre |-> pre, fs |-> fs, nz |-> nz, body |-> body, w |-> npre + nz + Len(body)]
IntText(env, a) ==
  LET p == IntParts(env, a) IN
    Pad(env, a.f, (IF p.fs THEN EncodeChar(env.cs, a.f.fill) ELSE <<>>) \o p.pre \o Zeros(p.nz) \o Flat(p.body), p.w * One)

(* ---- floating point numbers: v = the bytes of the value, little-endian; nt = "gen", "fixed", "sci" or
   "hex"; prec < 0 if not set; pt = `*`; "fast" if passed as it is.
   env.known: the known findings that are taken for granted                    *)
Max2(x, y) == IF x > y THEN x ELSE y
DigitChars(ds) == [i \in 1..Len(ds) |-> <<48 + ds[i]>>]
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
Known(env, k) == "known" \in DOMAIN env /\ k \in env.known
FloatParts(env, a) ==
  LET x == FF!Decode(a.ty, a.v)
      case == Case(env, IF "fast" \in DOMAIN a /\ Known(env, "KF-LC-FLOAT") THEN "float" ELSE a.ty)
      up == case = "upper"
      np == IF a.punct THEN NumPunct(env, IF a.nt = "hex" THEN 16 ELSE 10, a.ty) ELSE NoPunct
      grp == a.punct /\ (np.sep < 128 \/ Validate(env.cs, np.sep) # -1)
      pchar == << EncodeChar(env.cs, np.dec) >>
      sepchar == << EncodeChar(env.cs, np.sep) >>
      short == FF!Shortest(x)
      body(y) ==          \* the characters of a number in decimal notation
        (IF grp /\ ~y.x THEN Punctuate(DigitChars(y.i), np.g, np.fin, sepchar) ELSE DigitChars(y.i))
        \o (IF y.f # <<>> \/ a.pt THEN pchar ELSE <<>>) \o DigitChars(y.f)
        \o (IF y.x THEN << <<IF up THEN 69 ELSE 101>>, <<IF y.e < 0 THEN 45 ELSE 43>> >>
               \o (LET ab == IF y.e < 0 THEN -y.e ELSE y.e
                       ds == NatDigits(ab) IN (IF ab < 10 THEN << <<48>> >> ELSE <<>>) \o [i \in 1..Len(ds) |-> <<ds[i]>>]) ELSE <<>>)
      dec == CASE a.nt = "fixed" -> body(FF!FixedOf(short, a.prec))
               [] a.nt = "sci" -> body(FF!SciOf(short, a.prec))
               [] a.nt = "gen" /\ a.prec >= 0 -> body(FF!GenOf(short, a.prec, a.pt, Known(env, "KF-GEN-ALT")))
               [] OTHER -> LET f == body(FF!FixedOf(short, -1))
                               s == body(FF!SciOf(short, -1)) IN IF Len(s) < Len(f) THEN s ELSE f
      hexs ==
        LET nz == FF!TrimTail(x.nibs)
            r == IF a.prec < 0 THEN [d |-> <<x.lead>> \o nz, e |-> 0]
                 ELSE LET n == Len(nz) IN
                   IF a.prec >= n THEN [d |-> <<x.lead>> \o nz \o FF!Zs(a.prec - n), e |-> 0]
                   ELSE \* half to even on hexadecimal digits, the leading one included
                     LET all == <<x.lead>> \o nz
                         kept == SubSeq(all, 1, a.prec + 1)
                         nx == all[a.prec + 2]
                         more == \E i \in (a.prec + 3)..Len(all) : all[i] # 0
                         isup == nx > 8 \/ (nx = 8 /\ (more \/ kept[Len(kept)] % 2 = 1))
                         inc == IF isup THEN FF!IncrHex(kept) ELSE kept
                     IN IF inc[1] > 1 THEN [d |-> <<1>> \o Tail(inc), e |-> 1] ELSE [d |-> inc, e |-> 0]
            ex == x.bex + r.e
            ab == IF ex < 0 THEN -ex ELSE ex
            ds == NatDigits(ab)
        IN << <<DigitChar(r.d[1], case)>> >> \o (IF Len(r.d) > 1 \/ a.pt THEN pchar ELSE <<>>)
           \o [i \in 1..(Len(r.d) - 1) |-> <<DigitChar(r.d[i + 1], case)>>]
           \o << <<IF up THEN 80 ELSE 112>>, <<IF ex < 0 THEN 45 ELSE 43>> >> \o [i \in 1..Len(ds) |-> <<ds[i]>>]
      special == (IF x.cls = "nan" THEN (CASE case = "lower" -> <<110, 97, 110>> [] case = "mixed" -> <<78, 97, 78>> [] OTHER -> <<78, 65, 78>>)
                  ELSE (CASE case = "lower" -> <<105, 110, 102>> [] case = "mixed" -> <<73, 110, 102>> [] OTHER -> <<73, 78, 70>>))
      num == x.cls = "num"
      txt == IF ~num THEN [i \in 1..3 |-> <<special[i]>>] ELSE IF a.nt = "hex" THEN hexs ELSE dec
      sign == IF x.neg THEN <<45>> ELSE IF a.sign = "pos" THEN <<43>> ELSE <<>>
      fs == ~x.neg /\ a.sign = "fill"
      pre == sign \o (IF num /\ a.nt = "hex" THEN <<48, IF up THEN 88 ELSE 120>> ELSE <<>>)
      npre == Len(pre) + (IF fs THEN 1 ELSE 0)
      nz0 == a.pad0 - (npre + Len(txt))
      nz == IF num THEN Max2(nz0, 0) ELSE 0
  IN [pre |-> pre, fs |-> fs, nz |-> nz, body |-> txt, w |-> npre + nz + Len(txt), num |-> num]
FloatText(env, a) ==
  LET p == FloatParts(env, a)
      f == IF ~p.num /\ a.pad0 > Round(a.f.w) THEN [a.f EXCEPT !.w = a.pad0 * One] ELSE a.f
  IN Pad(env, f, (IF p.fs THEN EncodeChar(env.cs, a.f.fill) ELSE <<>>) \o p.pre \o Zeros(p.nz) \o Flat(p.body), p.w * One)

(* ---- booleans, characters, pointers ---- *)
BoolText(env, a) ==
  LET c == Case(env, "bool")
      t == CASE c = "lower" -> IF a.v THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
             [] c = "mixed" -> IF a.v THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
             [] OTHER -> IF a.v THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>
  IN Pad(env, a.f, t, Len(t) * One)
CharWidth(env, ty, cp) == IF WCalc(env, ty) = "std" THEN CpWidth(cp) * One ELSE One
(* a unit of the destination's character type is written as it is; char32_t is encoded *)
CharText(env, a) ==
  Pad(env, a.f, Times(IF a.ty = "char32" THEN EncodeChar(env.cs, a.v) ELSE <<a.v>>, a.n),
      a.n * CharWidth(env, a.ty, IF a.ty = "char32" THEN a.v ELSE DecodeUnit(env.cs, a.v)))
PtrText(env, a) ==
  IntText([env EXCEPT !.fs = <<[c |-> "case", on |-> <<"*">>, v |-> Case(env, "ptr")]>>],
          [ty |-> "ulong", sg |-> FALSE, v |-> a.v, base |-> 16, sb |-> TRUE, punct |-> FALSE, prec |-> 0, pad0 |-> 0, sign |-> "neg", f |-> a.f])

(* ---- strings: a.st = the character type of the source, a.scs = the charset given explicitly ("" if
   none), a.mode = "plain", "tr" (transcode), "sani" or "unsafe"; a.p = precision, if any ---- *)
UtfOf(ct) == CASE ct \in {"char", "char8"} -> "UTF-8" [] ct = "char16" -> "UTF-16" [] OTHER -> "UTF-32"
SrcCharset(env, a) ==
  IF a.scs # "" THEN a.scs
  ELSE IF HasFacet(env, "cs." \o a.st, a.ty) THEN FacetOf(env, "cs." \o a.st, a.ty).v ELSE UtfOf(a.st)
RECURSIVE TranscodeAll(_, _)
TranscodeAll(cs, cps) == IF cps = <<>> THEN <<>> ELSE EncodeOrRepl(cs, Head(cps)) \o TranscodeAll(cs, Tail(cps))
StrPrefix(env, a) ==   \* the part that is printed, and its width
  LET src == SrcCharset(env, a)
      calc == WCalc(env, a.ty)
  IN IF "p" \in DOMAIN a THEN LET f == StrFit(calc, src, a.v, a.p) IN [s |-> SubSeq(a.v, 1, f.n), w |-> f.w]
     ELSE [s |-> a.v, w |-> StrWidth(calc, src, a.v, WMax)]
StrText(env, a) ==
  LET src == SrcCharset(env, a)
      x == StrPrefix(env, a)
      raw == a.mode = "plain" \/ (a.mode = "tr" /\ src = env.cs)
  IN Pad(env, a.f, IF raw THEN x.s ELSE TranscodeAll(env.cs, CPs(src, FALSE, x.s)), x.w)

(* ---- tr-strings: the segments of a.ts, for n arguments: <<"t", units>> (text), <<"a", i>> (the i-th
   argument) and <<"e", p>> (a reference to a missing argument; p = index of its '{', from 0)  ---- *)
RECURSIVE FindCh(_, _, _)
FindCh(ts, c, i) == IF i > Len(ts) THEN 0 ELSE IF ts[i] = c THEN i ELSE FindCh(ts, c, i + 1)
RECURSIVE TrNumber(_, _, _, _)   \* the position, and where its digits end
TrNumber(ts, i, n, v) == IF i <= Len(ts) /\ 48 <= ts[i] /\ ts[i] <= 57 THEN TrNumber(ts, i + 1, n, IF v > n THEN v ELSE v * 10 + ts[i] - 48) ELSE <<v, i>>
RECURSIVE TrSegs(_, _, _, _, _)
\* from: where the current text begins; i: where a '{' is searched; k: next argument (from 0)
TrSegs(ts, from, i, k, n) ==
  LET b == FindCh(ts, 123, i)
      ref(x) == IF x < n THEN <<"a", x + 1>> ELSE <<"e", b - 1>>
      after(j) == LET z == FindCh(ts, 125, j) IN IF z = 0 THEN Len(ts) + 1 ELSE z + 1
  IN IF b = 0 THEN << <<"t", SubSeq(ts, from, Len(ts))>> >>
     ELSE << <<"t", SubSeq(ts, from, b - 1)>> >> \o
       (IF b = Len(ts) THEN << ref(k) >>
        ELSE LET c == ts[b + 1] IN
          CASE c = 123 -> TrSegs(ts, b + 1, b + 2, k, n)
            [] c = 45 -> TrSegs(ts, after(b + 1), after(b + 1), k, n)
            [] 48 <= c /\ c <= 57 -> LET x == TrNumber(ts, b + 1, n, 0) IN << ref(x[1]) >> \o TrSegs(ts, after(x[2]), after(x[2]), k, n)
            [] OTHER -> << ref(k) >> \o TrSegs(ts, after(b + 1), after(b + 1), k + 1, n))

Inner(env, fs) == [env EXCEPT !.fs = @ \o fs]
StrTag(env) == IF env.ct = "char" THEN "str.char" ELSE "str." \o env.ct
RECURSIVE Render(_, _)
RECURSIVE RenderAll(_, _)
RECURSIVE RenderSegs(_, _, _)
RECURSIVE RenderRange(_, _, _, _)
Render(env, a) ==
  CASE a.k = "int" -> IntText(env, a)
    [] a.k = "flt" -> FloatText(env, a)
    [] a.k = "bool" -> BoolText(env, a)
    [] a.k = "chr" -> CharText(env, a)
    [] a.k = "ptr" -> PtrText(env, a)
    [] a.k = "str" -> StrText(env, a)
    [] a.k = "with" -> RenderAll(Inner(env, a.fs), a.args)                \* facets for a group of arguments
    [] a.k = "join" -> LET x == RenderAll(env, a.args) IN Pad(env, a.f, x.t, x.w)
    [] a.k = "range" -> RenderRange(env, a.items, a.sep, StrWidth(WCalc(env, StrTag(env)), env.cs, a.sep, WMax))
    [] a.k = "tr" -> RenderSegs(env, a, TrSegs(a.ts, 1, 1, 0, Len(a.args)))
RenderAll(env, as) ==
  IF as = <<>> THEN [t |-> <<>>, w |-> 0]
  ELSE LET x == Render(env, Head(as))
           y == RenderAll(env, Tail(as))
       IN [t |-> x.t \o y.t, w |-> SatW(x.w, y.w)]
RenderRange(env, as, sep, sw) ==
  IF as = <<>> THEN [t |-> <<>>, w |-> 0]
  ELSE LET x == Render(env, Head(as))
           y == RenderRange(env, Tail(as), sep, sw)
       IN IF Tail(as) = <<>> THEN x ELSE [t |-> x.t \o sep \o y.t, w |-> SatW(SatW(x.w, sw), y.w)]
RenderSegs(env, a, segs) ==
  IF segs = <<>> THEN [t |-> <<>>, w |-> 0]
  ELSE LET g == Head(segs)
           x == CASE g[1] = "t" -> [t |-> g[2], w |-> StrWidth(WCalc(env, StrTag(env)), env.cs, g[2], WMax)]
                  [] g[1] = "a" -> Render(env, a.args[g[2]])
                  [] OTHER -> [t |-> EncodeChar(env.cs, 65533), w |-> One]
           y == RenderSegs(env, a, Tail(segs))
       IN [t |-> x.t \o y.t, w |-> SatW(x.w, y.w)]

(* the errors reported while an argument is printed: <<notifier, position, length of the tr-string>> *)
TrNotifier(env) == IF HasFacet(env, "te", StrTag(env)) THEN FacetOf(env, "te", StrTag(env)).v ELSE 0
RECURSIVE TrErrs(_, _)
RECURSIVE TrErrsAll(_, _)
RECURSIVE TrErrsSegs(_, _, _)
TrErrs(env, a) ==
  CASE a.k = "with" -> TrErrsAll(Inner(env, a.fs), a.args)
    [] a.k = "join" -> TrErrsAll(env, a.args)
    [] a.k = "range" -> TrErrsAll(env, a.items)
    [] a.k = "tr" -> TrErrsSegs(env, a, TrSegs(a.ts, 1, 1, 0, Len(a.args)))
    [] OTHER -> <<>>
TrErrsAll(env, as) == IF as = <<>> THEN <<>> ELSE TrErrs(env, Head(as)) \o TrErrsAll(env, Tail(as))
TrErrsSegs(env, a, segs) ==
  IF segs = <<>> THEN <<>>
  ELSE LET g == Head(segs) IN
    (CASE g[1] = "t" -> <<>>
       [] g[1] = "a" -> TrErrs(env, a.args[g[2]])
       [] OTHER -> IF TrNotifier(env) = 0 THEN <<>> ELSE << <<TrNotifier(env), g[2], Len(a.ts)>> >>) \o TrErrsSegs(env, a, Tail(segs))
=============================================================================

------------------------------- MODULE WidthCalc -------------------------------
(* The four width calculators: the width of a text in a charset (with a limit), and the longest
   prefix within a limit.  Widths are the underlying integers of width_t (1/65536).          *)
EXTENDS Charset, Graphemes
WMax == 2147483647
NonNeg(w) == IF w > 0 THEN w ELSE 0
CeilN(w) == (w \div One) + (IF w % One = 0 THEN 0 ELSE 1)
Units2W(n) == IF n > 32767 THEN WMax ELSE n * One
StrWidth(calc, cs, s, lim) ==
  CASE calc = "std" -> LET w == StdWidth(CPs(cs, FALSE, s)) IN IF w < NonNeg(lim) THEN w ELSE NonNeg(lim)
    [] calc = "fast" -> IF Len(s) <= Floor(NonNeg(lim)) THEN Len(s) * One ELSE NonNeg(lim)
    [] OTHER -> Units2W(Count(cs, FALSE, s, CeilN(NonNeg(lim)))[1])
(* [w |-> width, n |-> units] *)
StrFit(calc, cs, s, lim) ==
  CASE calc = "std" ->
         LET it == Items(cs, FALSE, s)
             f == StdFit(CPs(cs, FALSE, s), lim)
         IN [w |-> f.w, n |-> IF f.n = 0 THEN 0 ELSE it[f.n].at - 1 + it[f.n].n]
    [] calc = "fast" -> LET n == IF Len(s) <= Floor(NonNeg(lim)) THEN Len(s) ELSE Floor(NonNeg(lim)) IN [w |-> n * One, n |-> n]
    [] OTHER -> LET c == Count(cs, FALSE, s, Floor(NonNeg(lim))) IN [w |-> c[1] * One, n |-> c[2]]
(* a single unit of the charset *)
UnitWidth(calc, cs, u) == IF calc = "std" THEN CpWidth(DecodeUnit(cs, u)) * One ELSE One
=============================================================================

------------------------------ MODULE Graphemes ------------------------------
(* Grapheme clusters (Unicode Standard Annex 29, rules GB3 to GB999) and the widths of text.  *)
EXTENDS Integers, Sequences, GcbTable, Width

RECURSIVE GcbFind(_, _, _)
GcbFind(cp, lo, hi) ==   \* the last range starting at or before cp
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF GcbLo[m] <= cp THEN GcbFind(cp, m, hi) ELSE GcbFind(cp, lo, m - 1)
NRanges == Len(GcbLo)
Gcb(cp) ==
  IF cp < 127 THEN CASE cp = 13 -> "CR" [] cp = 10 -> "LF" [] cp < 32 -> "CN" [] OTHER -> "XX"
  ELSE LET k == GcbCls[GcbFind(cp, 1, NRanges)]
       IN IF k = "HS" THEN (IF (cp - 44032) % 28 = 0 THEN "LV" ELSE "LVT") ELSE k

(* ri: parity of the run of regional indicators ending at the previous code point;
   pic: the text up to the previous code point ends in ExtPict Extend* ZWJ (2) or ExtPict Extend* (1) *)
Break(p, c, ri, pic) ==
  CASE p = "CR" /\ c = "LF" -> FALSE                                   \* GB3
    [] p \in {"CN", "CR", "LF"} \/ c \in {"CN", "CR", "LF"} -> TRUE    \* GB4 GB5
    [] p = "L" /\ c \in {"L", "V", "LV", "LVT"} -> FALSE               \* GB6
    [] p \in {"LV", "V"} /\ c \in {"V", "T"} -> FALSE                  \* GB7
    [] p \in {"LVT", "T"} /\ c = "T" -> FALSE                          \* GB8
    [] c \in {"EX", "ZWJ", "SM"} -> FALSE                              \* GB9 GB9a
    [] p = "PP" -> FALSE                                               \* GB9b
    [] pic = 2 /\ c = "XP" -> FALSE                                    \* GB11
    [] p = "RI" /\ c = "RI" -> ri = 0                                  \* GB12 GB13
    [] OTHER -> TRUE                                                   \* GB999
NextRi(c, ri) == IF c = "RI" THEN 1 - ri ELSE 0
NextPic(c, pic) == CASE c = "XP" -> 1 [] c = "EX" /\ pic = 1 -> 1 [] c = "ZWJ" /\ pic = 1 -> 2 [] OTHER -> 0

(* the indexes of the first code points of the clusters of cps *)
RECURSIVE StartsFrom(_, _, _, _, _)
StartsFrom(cls, i, ri, pic, acc) ==
  IF i > Len(cls) THEN acc
  ELSE StartsFrom(cls, i + 1, NextRi(cls[i], ri), NextPic(cls[i], pic),
                  IF i = 1 \/ Break(cls[i - 1], cls[i], ri, pic) THEN Append(acc, i) ELSE acc)
Starts(cps) == StartsFrom([i \in 1..Len(cps) |-> Gcb(cps[i])], 1, 0, 0, <<>>)

(* the longest prefix made of whole clusters that fits in lim (sixteen-bit fraction):
   [w |-> its width, n |-> number of code points]                                          *)
RECURSIVE FitFrom(_, _, _, _, _)
FitFrom(cps, st, j, lim, w) ==
  IF j > Len(st) THEN [w |-> w, n |-> Len(cps)]
  ELSE LET cw == CpWidth(cps[st[j]]) * One IN
       IF lim - w < cw THEN [w |-> w, n |-> st[j] - 1] ELSE FitFrom(cps, st, j + 1, lim, w + cw)
StdFit(cps, lim) == FitFrom(cps, Starts(cps), 1, IF lim < 0 THEN 0 ELSE lim, 0)
RECURSIVE SumW(_, _, _, _)
SumW(cps, st, j, w) == IF j > Len(st) THEN w ELSE SumW(cps, st, j + 1, w + CpWidth(cps[st[j]]) * One)
StdWidth(cps) == SumW(cps, Starts(cps), 1, 0)
=============================================================================

------------------------------- MODULE Grouping -------------------------------
(* Digit grouping: sizes are read from the least significant digit; the last size repeats,
   unless the grouping is final (then the remaining digits form one group).                *)
EXTENDS Naturals, Integers, Sequences
(* the group sizes, least significant first, of n digits *)
RECURSIVE GroupsFrom(_, _, _, _)
GroupsFrom(g, fin, n, i) ==
  LET s == IF i <= Len(g) THEN g[i] ELSE g[Len(g)] IN
    IF i > Len(g) /\ fin THEN <<n>>
    ELSE IF n <= s THEN <<n>>
    ELSE <<s>> \o GroupsFrom(g, fin, n - s, i + 1)
Groups(g, fin, n) == IF g = <<>> \/ n <= 0 THEN <<n>> ELSE GroupsFrom(g, fin, n, 1)
SepCount(g, fin, n) == Len(Groups(g, fin, n)) - 1
(* the most significant digits, digit sequence ds most significant first, sep between groups *)
RECURSIVE Group(_, _, _)
Group(ds, gs, sep) ==
  IF Len(gs) <= 1 THEN ds
  ELSE Group(SubSeq(ds, 1, Len(ds) - gs[1]), Tail(gs), sep) \o sep \o SubSeq(ds, Len(ds) - gs[1] + 1, Len(ds))
Punctuate(ds, g, fin, sep) == Group(ds, Groups(g, fin, Len(ds)), sep)
=============================================================================

----------------------------- MODULE TraceLocale -----------------------------
(* Events of drv_locale: what the C library says about the punctuation of numbers (codeset, decimal
   point, thousands separator and grouping, as bytes), and the numpunct that locale_numpunct() made of
   it, with numbers printed with it.                                                                *)
EXTENDS TraceBase, Grouping, Encodings
VARIABLE l
None == -1
Replacement == 65533
(* the first character of s, in the codeset cs.  A byte below 0x80 stands for itself everywhere. *)
Knows(cs) == cs \in {"UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15"}
FirstChar(cs, s) ==
  IF s[1] < 128 THEN s[1]
  ELSE LET d == Decode(cs, FALSE, s, 1) IN IF d.cp = Bad THEN Replacement ELSE d.cp
Point(cs, s) == IF s = <<>> THEN Replacement
                ELSE IF s[1] < 128 \/ Knows(cs) THEN FirstChar(cs, s)
                ELSE Replacement
(* None: there is no usable separator, so nothing is separated *)
Separator(cs, s) == IF s = <<>> THEN None
                    ELSE IF s[1] < 128 THEN s[1]
                    ELSE IF ~Knows(cs) THEN 160
                    ELSE LET c == FirstChar(cs, s) IN IF c = Replacement THEN None ELSE c
(* the C library's grouping: the sizes, least significant first; CHAR_MAX (or a negative value) ends the
   grouping; otherwise the last size repeats *)
IsEnd(b) == b >= 127
Ends(g) == { i \in 1..Len(g) : IsEnd(g[i]) }
Sizes(g) == IF Ends(g) = {} THEN g ELSE SubSeq(g, 1, (CHOOSE i \in Ends(g) : \A j \in Ends(g) : i <= j) - 1)
(* what a digits_grouping can hold: at most 6 sizes of at most 31 *)
Fits(s) == Len(s) <= 6 /\ \A i \in 1..Len(s) : s[i] <= 31
Ascii(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]
Judge(r) ==
  LET sz == Sizes(r.g)
      sep == Separator(r.cs, r.ts)
      gr == IF sep = None \/ ~Fits(sz) THEN <<>> ELSE sz
      fin == Ends(r.g) # {}
      dp == Point(r.cs, r.dp)
      num == Punctuate(Ascii(r.ds), gr, fin, <<sep>>)
  IN IF r.rdp # dp THEN <<"decimal_point", dp>>
     ELSE IF gr # <<>> /\ r.rts # sep THEN <<"thousands_sep", sep>>
     ELSE IF gr = <<>> /\ r.rts # -1 THEN <<"no grouping expected">>
     ELSE IF \E n \in 0..45 : r.seps[n + 1] # (IF n = 0 THEN 0 ELSE SepCount(gr, fin, n)) THEN <<"separators", gr>>
     ELSE IF r.int # num THEN <<"integer", num>>
     ELSE IF r.flt # num \o <<dp, 53>> THEN <<"float", num, dp>>
     ELSE <<>>
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

---------------------------- MODULE TraceGrouping ----------------------------
(* Events of drv_grouping: one grouping, built in one of the documented ways, and everything that can
   be observed of it for one number of digits.                                                        *)
EXTENDS TraceBase, Grouping
VARIABLE l
B(x) == IF x THEN 1 ELSE 0
(* the groups an iterator announces, for n digits *)
FromIterator(it, n) == IF it = <<>> THEN <<n>> ELSE Groups([i \in 1..Len(it) |-> it[i][1]], it[Len(it)][4] = 1, n)
WellFormedIt(it) == \A i \in 1..Len(it) : /\ it[i][2] = B(i = Len(it))
                                          /\ it[i][3] + it[i][4] = it[i][2]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
(* the groups a distribution announces, least significant first *)
FromDistribution(r) == Rev(<<r.hi>> \o (IF r.mid > 0 THEN Rep(r.low[1], r.mid - 1) ELSE <<>>) \o r.low)
Judge(r) ==
  LET bad == Len(r.g) > 6 \/ \E i \in 1..Len(r.g) : r.g[i] < 1 \/ r.g[i] > 31
      g == IF bad THEN <<>> ELSE r.g
      gs == Groups(g, r.fin, r.n)
      sc == IF r.n <= 0 THEN 0 ELSE Len(gs) - 1
  IN IF r.failed # bad /\ r.via = "creator" THEN <<"failed", bad>>
     ELSE IF r.empty # (g = <<>>) THEN <<"empty", g = <<>> >>
     ELSE IF r.cnt # sc THEN <<"separators_count", sc>>
     ELSE IF r.any # (sc > 0) THEN <<"any_separator", sc>>
     ELSE IF ~WellFormedIt(r.it) \/ (r.n > 0 /\ FromIterator(r.it, r.n) # gs) \/ FromIterator(r.it, 60) # Groups(g, r.fin, 60)
          THEN <<"iterator", gs>>
     ELSE IF r.n > 0 /\ FromDistribution(r) # gs THEN <<"distribute", gs>>
     ELSE IF r.np # <<B(sc > 0), sc, B(sc > 0), sc, 1, 0>> THEN <<"numpunct", sc>>
     ELSE IF r.pp # <<r.dp, r.ts, r.dp, 46, B(r.dp = 46), 0, 0, 1, 46, 44, 0, r.dp>> THEN <<"punctuation characters", r.dp, r.ts>>
     ELSE <<>>
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

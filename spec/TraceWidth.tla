------------------------------ MODULE TraceWidth ------------------------------
(* Events of drv_width: calls of the width calculators.                                     *)
EXTENDS TraceBase, WidthCalc
VARIABLE l
(* n times 'x', for the calculators that are not std *)
BigWidth(calc, n, lim) == IF calc = "fast" \/ n <= Floor(NonNeg(lim)) THEN (IF n <= Floor(NonNeg(lim)) THEN n * One ELSE NonNeg(lim))
                          ELSE Units2W(Min2(n, CeilN(NonNeg(lim))))
BigFit(n, lim) == Min2(n, Floor(NonNeg(lim)))
JudgeWidth(r) ==
  CASE r.k = "width" -> LET e == StrWidth(r.calc, r.e, r.in, r.lim) IN IF r.w = e THEN <<>> ELSE <<"str_width", e>>
    [] r.k = "fit" -> LET e == StrFit(r.calc, r.e, r.in, r.lim) IN
                        IF r.n # e.n THEN <<"str_width_and_pos: position", e>> ELSE IF r.w # e.w THEN <<"str_width_and_pos: width", e>> ELSE <<>>
    [] r.k = "bigw" -> IF r.w = BigWidth(r.calc, r.big, r.lim) THEN <<>> ELSE <<"str_width", BigWidth(r.calc, r.big, r.lim)>>
    [] r.k = "bigf" -> LET e == BigFit(r.big, r.lim) IN IF r.n = e /\ r.w = e * One THEN <<>> ELSE <<"str_width_and_pos", e>>
    [] r.k = "unit" -> LET e == UnitWidth(r.calc, r.e, r.u) IN IF r.w = e THEN <<>> ELSE <<"char_width", e>>
    [] r.k = "cp" -> IF r.w = CpWidth(r.u) * One THEN <<>> ELSE <<"char32_width", CpWidth(r.u)>>
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, JudgeWidth(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

------------------------------ MODULE TraceDest ------------------------------
EXTENDS Dest, TraceBase
VARIABLE l
Judge(r) ==
  CASE r.k = "dest" -> Walk(r, S0(r.kind = "discarder"), 1)
    [] r.k = "bp" -> IF BoundedPrintOK(r) THEN <<>> ELSE <<"bounded print">>
    [] r.k = "fp" -> IF FailingPrintOK(r) THEN <<>> ELSE <<"failing sink">>
    [] OTHER -> <<"unknown event">>
Init == l \in BlockStarts
Consume == l <= TraceLen /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
Next == Consume
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

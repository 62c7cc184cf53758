----------------------------- MODULE TraceBuilds -----------------------------
(* One program, built twice: header-only, and against the separately compiled library.  The two builds
   implement the same transition system, whose calls are deterministic: run from the same seed they
   must take the same step, with the same output, return values and callbacks, at every line.
   VT_TRACE and VT_TRACE2 name the two recorded histories.                                         *)
EXTENDS TraceBase
VARIABLE l
Other == ndJsonDeserialize(IOEnv.VT_TRACE2)
Fields(a, b) == { f \in DOMAIN a \union DOMAIN b : f \notin DOMAIN a \/ f \notin DOMAIN b }
Judge(i) ==
  IF i > Len(Other) THEN <<"the other build stopped", Len(Other)>>
  ELSE IF Trace[i] = Other[i] THEN <<>>
  ELSE IF Fields(Trace[i], Other[i]) # {} THEN <<"other fields", Other[i]>>
  ELSE <<"differs", [f \in { f \in DOMAIN Other[i] : Other[i][f] # Trace[i][f] } |-> Other[i][f]]>>
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, Judge(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
SameLength == Len(Other) = TraceLen
Accepted == TLCGet("distinct") = TraceLen + 1
ASSUME SameLength
=============================================================================

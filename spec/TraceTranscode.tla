---------------------------- MODULE TraceTranscode ----------------------------
(* Each event of the trace is one call of the real transcoder; it must be the result of the
   Transcode machine run on the same arguments.                                             *)
EXTENDS Transcode, TraceBase
VARIABLE l

Ctx(r, lim) == [src |-> r.s, dst |-> r.d, lax |-> r.lax, sinv |-> r.sinv, suns |-> r.suns,
                lim |-> lim, in |-> r.in]

Has(r, f) == f \in DOMAIN r

OutcomeOf(c) == LET s == Result(c) IN [out |-> s.out, sp |-> s.i - 1, st |-> s.stop, notes |-> s.notes]

ObsOK(e, o) ==      \* observed call o against expected outcome e
  /\ o.inr /\ o.out = e.out /\ o.sp = e.sp /\ o.st = e.st
  /\ (Has(o, "notes") => (o.notes = e.notes /\ o.names))
SizeOK(e, z) == z.n = Len(e.out) /\ z.sp = e.sp /\ z.st = e.st

(* A resumption session: the concatenation of the parts is the whole, part by part. *)
RECURSIVE ResOK(_,_,_,_)
ResOK(r, k, rest, acc) ==
  IF k > Len(r.parts)
  THEN LET w == OutcomeOf(Ctx(r, r.lim)) IN r.parts[Len(r.parts)].r.st = "completed" /\ acc = w.out
  ELSE LET p == r.parts[k]
           e == OutcomeOf([Ctx(r, p.lim) EXCEPT !.in = rest])
       IN /\ ObsOK(e, p.r)
          /\ ResOK(r, k + 1, SubSeq(rest, p.r.sp + 1, Len(rest)), acc \o p.r.out)

Judge0(r) ==
  CASE r.k = "tr" ->
         LET e == OutcomeOf(Ctx(r, r.lim)) IN
           IF ~ObsOK(e, r.o) THEN <<"transcode", e>>
           ELSE IF Has(r, "z") /\ ~SizeOK(e, r.z) THEN <<"transcode_size", e>> ELSE <<>>
    [] r.k = "un" ->
         LET e == OutcomeOf(Ctx(r, r.lim)) IN
           IF ~ObsOK(e, r.u) THEN <<"unsafe_transcode", e>>
           ELSE IF ~SizeOK(e, r.uz) THEN <<"unsafe_transcode_size", e>>
           ELSE IF ~ObsOK(e, r.o) \/ ~SizeOK(e, r.z) THEN <<"safe counterpart", e>> ELSE <<>>
    [] r.k = "res" -> IF ResOK(r, 1, r.in, <<>>) THEN <<>> ELSE <<"resume">>
    [] OTHER -> <<"unknown event">>

Dev(r, kind, lim) == OutcomeOf(("dev" :> kind) @@ Ctx(r, lim))
Known(r) ==
  /\ r.k \in {"tr", "un"}
  /\ \/ ObsOK(OutcomeOf(Ctx(r, r.lim)), r.o)
     \/ ObsOK(Dev(r, "tr", r.lim), r.o)
  /\ Has(r, "z") => \/ SizeOK(OutcomeOf(Ctx(r, r.lim)), r.z)
                    \/ SizeOK(Dev(r, "size", r.lim), r.z)
  /\ r.k = "un" => LET e == OutcomeOf(Ctx(r, r.lim)) IN ObsOK(e, r.u) /\ SizeOK(e, r.uz)
Judge(r) ==
  LET v == Judge0(r) IN
    IF v = <<>> THEN v ELSE IF Known(r) THEN <<"KNOWN", "KF-SB-FFFF">> ELSE v

Init == l \in BlockStarts
Consume == /\ l <= TraceLen
           /\ Report(l, Judge(Trace[l]))
           /\ l' = l + 1
Next == Consume
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

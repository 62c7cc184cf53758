---------------------------- MODULE TraceIndirect ----------------------------
(* Calls that transcode by way of UTF-32, into destinations, or by charsets: each must give what the
   Transcode machine gives.  A position is given as a number of code points (u32dist) from a unit of the input.
   A destination is a sequence of buffers: a character that does not fit in the room left of one goes to
   the next; the destination fails when there is none.                                           *)
EXTENDS Transcode, TraceBase
VARIABLE l

Ctx(r) == [src |-> r.s, dst |-> r.d, lax |-> r.lax, sinv |-> r.sinv, suns |-> r.suns, lim |-> r.lim, in |-> r.in]

(* streaming: b = the current buffer, u = units in it *)
Reset(c, st) == [c EXCEPT !.lim = Len(st.out) + c.bufs[st.b] - st.u]
RECURSIVE StreamFrom(_, _)
StreamFrom(c, st) ==
  IF st.stop = "space" /\ st.b < Len(c.bufs) /\ st.b > 0 THEN StreamFrom(c, [st EXCEPT !.b = @ + 1, !.u = 0, !.stop = "run", !.notes = st.n0])
  ELSE IF st.stop # "run" THEN st
  ELSE LET s1 == Step(Reset(c, st), st) IN StreamFrom(c, [s1 EXCEPT !.u = @ + Len(s1.out) - Len(st.out), !.n0 = IF s1.stop = "space" THEN st.notes ELSE s1.notes])
Stream(c) == IF c.bufs = <<>> THEN [i |-> 1, out |-> <<>>, notes |-> <<>>, stop |-> "space", b |-> 0, u |-> 0, n0 |-> <<>>]
             ELSE StreamFrom(c, Start @@ [b |-> 1, u |-> 0, n0 |-> <<>>])

(* the unit d code points after unit `at` of the input; -1 if `at` is not the start of one *)
PosOf(r, it, at, d) ==
  LET k == IF at = Len(r.in) THEN Len(it) + 1 ELSE IF \E j \in 1..Len(it) : it[j].at = at + 1 THEN CHOOSE j \in 1..Len(it) : it[j].at = at + 1 ELSE -1
  IN IF k = -1 \/ d < 0 \/ k + d > Len(it) + 1 THEN -1 ELSE IF k + d = Len(it) + 1 THEN Len(r.in) ELSE it[k + d].at - 1

Inv(ns) == { <<ns[i][2], ns[i][3]>> : i \in {j \in 1..Len(ns) : ns[j][1] = 0} }
Uns(ns) == { ns[i][2] : i \in {j \in 1..Len(ns) : ns[j][1] = 1} }
SetOf(s) == { s[i] : i \in 1..Len(s) }
(* errors of what was read ahead may be notified too *)
NotesOK(e, all, x) ==
  /\ x.names
  /\ IF e.stop = "completed" THEN SetOf(x.inv) = Inv(e.notes) /\ SetOf(x.uns) = Uns(e.notes)
     ELSE /\ Inv(e.notes) \subseteq SetOf(x.inv) /\ SetOf(x.inv) \subseteq Inv(all.notes)
          /\ Uns(e.notes) \subseteq SetOf(x.uns) /\ SetOf(x.uns) \subseteq Uns(all.notes)
At(r, it, e, x) == x.st = e.stop /\ PosOf(r, it, x.at, x.dist) = e.i - 1

(* c: the context.  dv: "" or, for the calls that the known finding KF-SB-FFFF affects, "dev"   *)
ArrOK(r, it, c, x) == LET e == Result(c) IN
  x.inr /\ x.same /\ x.out = e.out /\ At(r, it, e, x) /\ NotesOK(e, Result([c EXCEPT !.sinv = FALSE, !.suns = FALSE, !.lim = 1000000]), x)
SizOK(r, it, c, x) == LET e == Result(c) IN x.z = Len(e.out) /\ At(r, it, e, x)
DstOK(r, it, c, x) == LET s == Stream(c) IN
  x.z = Len(s.out) /\ x.out = s.out /\ x.good = (s.stop # "space") /\ At(r, it, s, x)
  /\ NotesOK(s, Result([c EXCEPT !.sinv = FALSE, !.suns = FALSE, !.lim = 1000000]), x)
PrtOK(r, c, x) == LET s == Stream(c) IN
  x.out = s.out /\ x.good = (s.stop # "space") /\ NotesOK(s, Result([c EXCEPT !.lim = 1000000]), x)
Judge0(r, c1, c2) ==     \* each call as c1 or as c2 has it
  LET it == Items(r.s, r.lax, r.in)
      z(c) == IF "dev" \in DOMAIN c THEN [c EXCEPT !.dev = "size"] ELSE c
      ba == { i \in 1..Len(r.arr) : ~ArrOK(r, it, c1, r.arr[i]) /\ (c2 = c1 \/ ~ArrOK(r, it, c2, r.arr[i])) }
      bz == { i \in 1..Len(r.siz) : ~SizOK(r, it, c1, r.siz[i]) /\ (c2 = c1 \/ ~SizOK(r, it, z(c2), r.siz[i])) }
      bd == { i \in 1..Len(r.dst) : ~DstOK(r, it, c1, r.dst[i]) /\ (c2 = c1 \/ ~DstOK(r, it, c2, r.dst[i])) }
      bp == { i \in 1..Len(r.prt) : ~PrtOK(r, c1, r.prt[i]) /\ (c2 = c1 \/ ~PrtOK(r, c2, r.prt[i])) }
  IN IF bp # {} THEN <<"printed", Stream(c1)>> ELSE IF ba # {} THEN <<"into an array", [i \in ba |-> r.arr[i].n], Result(c1)>>
     ELSE IF bz # {} THEN <<"size", [i \in bz |-> r.siz[i].n], Result(c1)>>
     ELSE IF bd # {} THEN <<"into a destination", [i \in bd |-> r.dst[i].n], Stream(c1)>>
     ELSE <<>>
Judge(r) ==
  LET c == [bufs |-> r.bufs] @@ Ctx(r)
      v == Judge0(r, c, c)
  IN IF v = <<>> THEN v
     ELSE IF r.s = "UTF-32" /\ r.d \in SBNames /\ Judge0(r, c, [dev |-> "tr"] @@ c) = <<>> THEN <<"KNOWN", "KF-SB-FFFF">> ELSE v

Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, Judge(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

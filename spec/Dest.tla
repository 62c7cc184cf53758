-------------------------------- MODULE Dest --------------------------------
(* An output buffer as seen from outside: what was accepted, what arrived downstream, and
   whether it is still good.

   Abstract state s:
     all   units accepted while good, in order (for bounded ranges: those known to be stored)
     sunk  how many of them arrived downstream so far
     good  the flag reported by good()
     tail  bounded ranges: the units of the operation that overflowed (candidates for storage)
     op    bounded ranges: the operation that overflowed
     fin   finish() was called
     off   a sink refused something (accepted fewer units than offered, or threw)

   The operations put, write, iter, fill, direct (= ensure; store; advance), ensure, recycle and
   finish are the actions.  WHEN pending units travel downstream is left open: every
   observation in which the arrived units are a prefix of the accepted ones is allowed, except
   where the operation's contract fixes it (recycle and finish deliver everything).            *)
EXTENDS Integers, Sequences, FiniteSets

S0(bad) == [all |-> <<>>, sunk |-> 0, good |-> ~bad, tail |-> <<>>, op |-> "", fin |-> FALSE, off |-> FALSE]

Min(a, b) == IF a < b THEN a ELSE b
Sub(q, a, n) == SubSeq(q, a + 1, a + n)
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))

(* Units an operation tries to append. *)
Units(e) == IF "d" \in DOMAIN e THEN e.d ELSE <<>>

Sinks == {"user", "appender", "streambuf", "cfile", "wcfile"}   \* the sink can be watched
Makers == {"maker", "sized"}                                    \* delivered by finish only
Bounded == {"cstr", "array"}

(* ------------------------------ sinks and makers ------------------------------ *)
(* e: recorded operation with e.o its observation; result: <<ok, s'>>.                        *)
(* The FILE of a wide_cfile_writer is a file that cannot grow beyond cap units: it refuses a unit
   exactly when cap units are there already.                                                 *)
WideOff(cap, s, e, all2) ==
  IF ~s.good THEN FALSE
  ELSE IF e.op = "finish" THEN Len(all2) > cap
  ELSE ~e.o.g /\ Len(all2) > cap /\ s.sunk + Len(e.o.rcv) = cap
SinkStep(kind, cap, min, s, e) ==
  LET all2 == IF s.good THEN s.all \o Units(e) ELSE s.all
      o == IF kind = "wcfile" THEN [e.o EXCEPT !.off = WideOff(cap, s, e, all2)] ELSE e.o
      n == Len(o.rcv)
      s2 == [s EXCEPT !.all = all2, !.sunk = @ + n, !.good = o.g,
                      !.off = @ \/ o.off \/ o.threw, !.fin = @ \/ (e.op = "finish")]
      isfin == e.op = "finish"
      flushes == e.op = "recycle" \/ isfin
  IN << (* exactly once, in order: what arrives is the next piece of what was accepted *)
        /\ s.sunk + n <= Len(all2) /\ o.rcv = Sub(all2, s.sunk, n)
        (* the bad state is a latch and freezes the sink *)
        /\ ~s.good => (n = 0 /\ ~o.g)
        (* it goes bad exactly when something was refused or finish was called *)
        /\ s.good => (o.g = ~(o.off \/ o.threw \/ isfin))
        (* after the first refusal nothing more is offered *)
        /\ o.after = 0
        (* recycle and finish deliver everything, unless refused *)
        /\ (s.good /\ flushes /\ ~o.off /\ ~o.threw) => s.sunk + n = Len(all2)
        (* room *)
        /\ o.sp >= 0
        /\ (e.op = "recycle" /\ ~o.threw) => o.sp >= min
        /\ (e.op = "ensure" /\ ~o.threw) => o.sp >= e.n
        /\ (e.op = "direct" /\ ~o.threw) => e.room
        (* the result of finish *)
        /\ isfin => \/ "none" \in DOMAIN e.res
                    \/ e.res.count = s.sunk + n /\ e.res.success = (s.good /\ ~o.off),
        s2 >>

MakerStep(kind, min, s, e) ==
  LET o == e.o
      all2 == IF s.good THEN s.all \o Units(e) ELSE s.all
      isfin == e.op = "finish"
      s2 == [s EXCEPT !.all = all2, !.good = o.g, !.fin = @ \/ isfin]
  IN << /\ o.g = (s.good /\ ~isfin)
        /\ o.sp >= 0
        /\ e.op = "recycle" => o.sp >= min
        /\ e.op = "ensure" => o.sp >= e.n
        /\ e.op = "direct" => e.room
        /\ o.rcv = (IF isfin /\ ~s.fin THEN all2 ELSE <<>>),
        s2 >>

(* ---------------------------------- bounded ---------------------------------- *)
Room(kind, cap, s) == (IF kind = "cstr" THEN cap - 1 ELSE cap) - Len(s.all)
NeedsRecycle(kind, cap, s, e) ==
  CASE e.op = "recycle" -> TRUE
    [] e.op \in {"ensure", "direct"} -> e.n > Room(kind, cap, s)
    [] e.op = "finish" -> FALSE
    [] OTHER -> Len(Units(e)) > Room(kind, cap, s)
(* how many units of the overflowing operation are stored: whole multiples of the encoded
   character for fill, everything that fits for the others, nothing for ensure/recycle      *)
TailStored(kind, cap, s) ==
  IF s.op \in {"put", "write", "iter"} THEN {Min(Room(kind, cap, s), Len(s.tail))}
  ELSE 0..Min(Room(kind, cap, s), Len(s.tail))

BoundedStep(kind, cap, s, e) ==
  LET o == e.o
      isfin == e.op = "finish"
      over == s.good /\ NeedsRecycle(kind, cap, s, e)
      s2 == [s EXCEPT !.all = IF s.good /\ ~over THEN @ \o Units(e) ELSE @,
                      !.tail = IF over /\ e.op \notin {"recycle", "ensure", "direct"} THEN Units(e) ELSE @,
                      !.op = IF over THEN e.op ELSE @,
                      !.good = o.g, !.fin = @ \/ isfin]
  IN << /\ o.g = (s.good /\ ~over /\ ~(isfin /\ kind = "cstr"))
        /\ (s.good /\ o.g) => o.sp = Room(kind, cap, s2)
        /\ e.op = "ensure" => o.sp >= e.n
        /\ e.op = "direct" => e.room
        /\ o.sp >= 0
        /\ e.op = "recycle" => o.sp >= 64
        /\ isfin => /\ e.res.t = ~s.good
                    /\ e.res.p - Len(s.all) \in TailStored(kind, cap, s),
        s2 >>

DiscardStep(min, s, e) ==
  << ~e.o.g /\ e.o.sp >= 0 /\ (e.op = "recycle" => e.o.sp >= min)
     /\ (e.op = "ensure" => e.o.sp >= e.n) /\ (e.op = "direct" => e.room), s >>

StepOf(r, s, e) ==
  CASE r.kind \in Sinks -> SinkStep(r.kind, r.cap, r.min, s, e)
    [] r.kind \in Makers -> MakerStep(r.kind, r.min, s, e)
    [] r.kind \in Bounded -> BoundedStep(r.kind, r.cap, s, e)
    [] OTHER -> DiscardStep(r.min, s, e)

(* The end of a session: destruction.  Buffers that write on destruction deliver the rest. *)
EndOK(r, s) ==
  CASE r.kind \in Sinks ->
         LET o == r.end
             all2 == s.all
             n == Len(o.rcv)
         IN /\ s.sunk + n <= Len(all2) /\ o.rcv = Sub(all2, s.sunk, n)
            /\ ~s.good => n = 0
            /\ o.after = 0
            /\ (s.good /\ ~o.off /\ (r.kind = "wcfile" => Len(all2) <= r.cap) /\ r.kind # "user" /\ ~("tight" \in DOMAIN o /\ o.tight)) => s.sunk + n = Len(all2)
            /\ ("intact" \in DOMAIN o => o.intact)
    [] r.kind \in Bounded ->     \* contents of the range
         LET p == IF s.fin THEN r.steps[CHOOSE k \in DOMAIN r.steps : r.steps[k].op = "finish" /\ \A j \in DOMAIN r.steps : r.steps[j].op = "finish" => j <= k].res.p ELSE Len(s.all)
             full == s.all \o s.tail
         IN /\ 0 <= p /\ p <= Len(r.end.mem)
            /\ SubSeq(r.end.mem, 1, p) = SubSeq(full, 1, p)
            /\ (r.kind = "cstr" /\ s.fin) => (p < r.cap /\ r.end.mem[p + 1] = 0)
    [] OTHER -> TRUE

RECURSIVE Walk(_,_,_)
Walk(r, s, k) ==      \* <<>>: explained
  IF k > Len(r.steps) THEN IF EndOK(r, s) THEN <<>> ELSE <<"end", s>>
  ELSE LET v == StepOf(r, s, r.steps[k])
       IN IF v[1] THEN Walk(r, v[2], k + 1) ELSE <<"step", k, s>>

(* -------------------------- a whole print call, from outside -------------------------- *)
(* full: the text an unbounded destination gets.  Not truncated = everything is there.      *)
BoundedPrintOK(r) ==
  LET room == IF r.cstr THEN r.cap - 1 ELSE r.cap
  IN /\ 0 <= r.p /\ r.p <= room
     /\ r.p <= Len(r.full)
     /\ SubSeq(r.mem, 1, r.p) = SubSeq(r.full, 1, r.p)
     /\ r.cstr => r.mem[r.p + 1] = 0
     /\ r.t = (Len(r.full) > room)
     /\ ~r.t => r.p = Len(r.full)
FailingPrintOK(r) ==
  /\ IsPrefixOf(r.rcv, r.full)
  /\ r.after = 0
  /\ IF r.threw THEN r.off          \* the sink threw: only a refused sink may, and the exception gets out
     ELSE /\ r.count = Len(r.rcv)
          /\ r.success = ~r.off
          /\ r.success => Len(r.rcv) = Len(r.full)
=============================================================================

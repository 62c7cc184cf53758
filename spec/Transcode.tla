------------------------------ MODULE Transcode ------------------------------
(* One call of transcode(src, src_end, dst, dst+lim, notifier, flags) as a state machine.
   c  = [src, dst : encoding names; lax, sinv, suns : flags; lim : room in dst; in : units]
   st = [i : next input index; out : units written; notes : notifier calls; stop : reason]  *)
EXTENDS Encodings

Start == [i |-> 1, out |-> <<>>, notes |-> <<>>, stop |-> "run"]

Put(c, st, e, n) ==     \* write e for n input units, if it fits
  IF Len(st.out) + Len(e) > c.lim THEN [st EXCEPT !.stop = "space"]
  ELSE [st EXCEPT !.out = @ \o e, !.i = @ + n]

(* Known finding KF-SB-FFFF: encoding to a single-byte charset under the strict policy, the code
   takes U+E000..U+FFFF for surrogates.  A context with field "dev" describes that behaviour
   ("tr": transcode, "size": transcode_size, which also takes U+FFFD); the trace
   specification only uses it to tell that finding apart from any other discrepancy.        *)
DevBad(c, cp) ==
  /\ "dev" \in DOMAIN c
  /\ c.src = "UTF-32" /\ c.dst \in SBNames /\ ~c.lax
  /\ 57344 <= cp /\ cp <= 65535 /\ (c.dev = "tr" => cp # ReplCP)

Step(c, st) ==
  IF st.i > Len(c.in) THEN [st EXCEPT !.stop = "completed"]
  ELSE LET d == Decode(c.src, c.lax, c.in, st.i) IN
    IF d.cp = Bad \/ DevBad(c, d.cp) THEN                                        \* action InvalidSequence
       LET s1 == [st EXCEPT !.notes = Append(@, <<0, st.i - 1, d.n>>)]
       IN IF c.sinv THEN [s1 EXCEPT !.stop = "invalid"] ELSE Put(c, s1, Repl(c.dst), d.n)
    ELSE IF Encodable(c.dst, d.cp) THEN Put(c, st, Encode(c.dst, d.cp), d.n)   \* action CodePoint
    ELSE IF d.cp = ReplCP THEN Put(c, st, Repl(c.dst), d.n)   \* U+FFFD is never "unsupported"
    ELSE LET s1 == [st EXCEPT !.notes = Append(@, <<1, d.cp, 0>>)]             \* action Unsupported
         IN IF c.suns THEN [s1 EXCEPT !.stop = "unsupported"] ELSE Put(c, s1, Repl(c.dst), d.n)

RECURSIVE RunFrom(_,_)
RunFrom(c, st) == IF st.stop # "run" THEN st ELSE RunFrom(c, Step(c, st))
Result(c) == RunFrom(c, Start)
=============================================================================

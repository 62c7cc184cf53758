----------------------------- MODULE TraceCharset -----------------------------
(* Events of drv_charset: counting, filling, single characters, and calls of transcoders
   obtained through find_transcoder (these are ordinary Transcode events).                *)
EXTENDS TraceTranscode, Charset
RECURSIVE Rep(_, _)
Rep(u, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 0 THEN Rep(u \o u, n \div 2) ELSE u \o Rep(u \o u, n \div 2)
JudgeCS(r) ==
  CASE r.k = "count" ->      \* robust counting
         LET e == Count(r.e, FALSE, r.in, r.max) IN
           IF r.got = e THEN <<>> ELSE <<"count_codepoints", e>>
    [] r.k = "fast" ->       \* the text is well-formed
         LET e == Count(r.e, FALSE, r.in, r.max) IN
           IF r.got = e THEN <<>> ELSE <<"count_codepoints_fast", e>>
    [] r.k = "fill" ->
         LET e == Rep(EncodeChar(r.e, r.cp), r.n) IN
           IF r.got = e THEN <<>> ELSE <<"encode_fill", e>>
    [] r.k = "chr" ->
         LET e == [v |-> Validate(r.e, r.cp), z |-> CharSize(r.e, r.cp), u |-> EncodeChar(r.e, r.cp)] IN
           IF r.v = e.v /\ r.z = e.z /\ r.u = e.u THEN <<>> ELSE <<"validate/encoded_char_size/encode_char", e>>
    [] OTHER -> Judge(r)
ConsumeCS == /\ l <= TraceLen
             /\ Report(l, JudgeCS(Trace[l]))
             /\ l' = l + 1
SpecCS == Init /\ [][ConsumeCS]_l
=============================================================================

---------------------------- MODULE TranscodeModel ----------------------------
(* The transcoding machine of Transcode.tla, explored: every text of up to N units drawn from units that
   meet every branch of the decoders, every pair of encodings of Pairs, every policy, flag and limit.
   The invariants are the guarantees of C06 to C10 about the specification itself; the traces and
   tables bind the code to the same machine.                                                           *)
EXTENDS Transcode, TLC
CONSTANTS N, Pairs
VARIABLES c, st
Units == [e \in EncNames |->
  CASE e = "UTF-8"  -> {65, 128, 159, 160, 191, 194, 224, 237, 240, 244, 255}
    [] e = "UTF-16" -> {65, 233, 8364, 55296, 56319, 56320, 57343, 65533}
    [] e = "UTF-32" -> {65, 233, 8364, 55296, 57343, 57344, 65533, 65536, 1114111, 1114112}
    [] OTHER -> {65, 127, 128, 164, 165, 191, 208, 255}]
Texts(e) == UNION { [1..n -> Units[e]] : n \in 0..N }
Max == 4 * N
Configs == UNION { [src : {p[1]}, dst : {p[2]}, lax : BOOLEAN, sinv : BOOLEAN, suns : BOOLEAN, lim : {0, 1, 2, 3, 5, Max}, in : Texts(p[1])] : p \in Pairs }
Init == c \in Configs /\ st = Start
Next == st.stop = "run" /\ st' = Step(c, st) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, st>> /\ WF_<<c, st>>(Next)
Done == st.stop # "run"
(* ---- C07: limits *)
InRoom == Len(st.out) <= c.lim
Unbounded == Result([c EXCEPT !.lim = Max])
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
LimitCutsOnly == Done => /\ Prefix(st.out, Unbounded.out)
                         /\ (st.stop # "space" => st.out = Unbounded.out /\ st.i = Unbounded.i /\ st.stop = Unbounded.stop)
Stops == Done => /\ st.stop = "completed" => st.i = Len(c.in) + 1
                 /\ st.stop = "space" => /\ st.i <= Len(c.in)
                                         /\ c.lim < Len(Unbounded.out)
                 /\ st.stop = "invalid" => c.sinv
                 /\ st.stop = "unsupported" => c.suns
(* resuming where a call stopped for want of room gives what one call with room gives *)
Resumed == Result([c EXCEPT !.lim = Max, !.in = SubSeq(c.in, st.i, Len(c.in))])
Resume == (Done /\ st.stop = "space") => st.out \o Resumed.out = Unbounded.out /\ Resumed.stop = Unbounded.stop
(* ---- C06: content *)
InvalidAt(k) == LET d == Decode(c.src, c.lax, c.in, k) IN d.cp = Bad
OutputValid == Valid(c.dst, c.lax, st.out)
ValidIn == Valid(c.src, c.lax, c.in)
AllEncodable == \A k \in DOMAIN CPs(c.src, c.lax, c.in) : Encodable(c.dst, CPs(c.src, c.lax, c.in)[k])
Lossless == (Done /\ st.stop = "completed" /\ ValidIn /\ AllEncodable) => CPs(c.dst, c.lax, st.out) = CPs(c.src, c.lax, c.in) /\ st.notes = <<>>
OneEach == (Done /\ st.stop = "completed") => Len(CPs(c.dst, c.lax, st.out)) = Len(Items(c.src, c.lax, c.in))
(* ---- C08: notifications *)
Errors(k) == Cardinality({ j \in DOMAIN st.notes : st.notes[j][1] = k })
ErrorsOf(s) == Cardinality({ j \in DOMAIN s : s[j].cp = Bad })
NotesExact == (Done /\ st.stop = "completed") =>
                /\ Errors(0) = ErrorsOf(Items(c.src, c.lax, c.in))
                /\ \A j \in DOMAIN st.notes : st.notes[j][1] = 0 => st.notes[j][3] >= 1 /\ st.notes[j][2] + st.notes[j][3] <= Len(c.in)
                /\ \A j, k \in DOMAIN st.notes : (j < k /\ st.notes[j][1] = 0 /\ st.notes[k][1] = 0) => st.notes[j][2] + st.notes[j][3] <= st.notes[k][2]
StopIsNoted == (Done /\ st.stop \in {"invalid", "unsupported"}) => st.notes # <<>> /\ st.notes[Len(st.notes)][1] = (IF st.stop = "invalid" THEN 0 ELSE 1)
FirstErrorStops == (c.sinv /\ c.suns) => Len(st.notes) <= 1
(* ---- decoding covers the text, each unit once *)
Progress == [][st'.stop # "run" \/ st'.i > st.i]_st
Covers == \A k \in DOMAIN Items(c.src, c.lax, c.in) :
             LET it == Items(c.src, c.lax, c.in) IN it[k].at = (IF k = 1 THEN 1 ELSE it[k - 1].at + it[k - 1].n) /\ (k = Len(it) => it[k].at + it[k].n = Len(c.in) + 1)
Terminates == <>Done
=============================================================================

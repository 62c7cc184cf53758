------------------------------ MODULE TracePrint ------------------------------
(* Events of drv_print*: one printing call, its result on one or more destinations, the size
   computed in advance and the width.                                                       *)
EXTENDS TraceBase, Printing, Transcode
VARIABLE l
Env(r) == [cs |-> r.cs, ct |-> r.ct, fs |-> r.fs]
BadOuts(r, e) == { i \in 1..Len(r.outs) : r.outs[i].u # e.t }
(* the errors notified while a string is transcoded.  The notifier may be called again for an
   error where the destination had no room for the replacement, so only the set is judged.  From
   UTF-32 to a single-byte charset the notes are not judged for code points that the known finding
   KF-SB-FFFF (of C03) is about.                                                            *)
NotesOf(env, a) ==
  LET src == SrcCharset(env, a)
      s == StrPrefix(env, a).s
      res == Result([src |-> src, dst |-> env.cs, lax |-> FALSE, sinv |-> FALSE, suns |-> FALSE, lim |-> 1000000, in |-> s])
  IN IF a.mode = "plain" \/ (a.mode = "tr" /\ src = env.cs) THEN {} ELSE { res.notes[i] : i \in 1..Len(res.notes) }
BadNotes(r) ==
  LET a == r.args[1]
      src == SrcCharset(Env(r), a)
  IN /\ ~(src = "UTF-32" /\ r.cs \in SBNames /\ \E i \in 1..Len(a.v) : 57344 <= a.v[i] /\ a.v[i] <= 65535)
     /\ (~r.ntok \/ { r.nt[i] : i \in 1..Len(r.nt) } # NotesOf(Env(r), a))
JudgeIn(env, r) ==
  LET e == RenderAll(env, r.args)
      b == BadOuts(r, e)
      nl == EncodeChar(r.cs, 10)
  IN IF b # {} THEN <<"text", e.t, [i \in b |-> r.outs[i].n]>>
     ELSE IF "nt" \in DOMAIN r /\ BadNotes(r) THEN <<"errors notified", NotesOf(Env(r), r.args[1])>>
     ELSE IF "te" \in DOMAIN r /\ r.te # TrErrsAll(Env(r), r.args) THEN <<"errors in tr-strings", TrErrsAll(Env(r), r.args)>>
     ELSE IF "sz" \in DOMAIN r /\ \E i \in 1..Len(r.sz) : r.sz[i] # Len(e.t) THEN <<"precalculated size", Len(e.t)>>
     ELSE IF "wd" \in DOMAIN r /\ (r.wd # e.w \/ r.wd2 # e.w) THEN <<"precalculated width", e.w>>
     ELSE IF "ln" \in DOMAIN r /\ r.ln # e.t \o nl THEN <<"line", e.t \o nl>>
     ELSE IF "lz" \in DOMAIN r /\ r.lz # Len(e.t) + 1 THEN <<"precalculated size of a line", Len(e.t) + 1>>
     ELSE <<>>
(* (what only a known finding explains) *)
JudgePrint(r) ==
  LET v == JudgeIn(Env(r), r)
  IN IF v = <<>> THEN v
     ELSE IF JudgeIn([known |-> {"KF-GEN-ALT"}] @@ Env(r), r) = <<>> THEN <<"KNOWN", "KF-GEN-ALT">>
     ELSE IF JudgeIn([known |-> {"KF-LC-FLOAT"}] @@ Env(r), r) = <<>> THEN <<"KNOWN", "KF-LC-FLOAT">>
     ELSE v
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, JudgePrint(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

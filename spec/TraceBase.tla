------------------------------ MODULE TraceBase ------------------------------
(* A recorded trace: one JSON event per line, consumed one line per step.  The state "l" is the
   next line to consume; the initial states are block starts so that TLC's workers share the
   trace.  A line that the specification cannot explain is printed as "REJECT line why"
   and skipped, so that one run reports every unexplained line.                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
TraceLen == Len(Trace)
BlockSize == 64
BlockStarts == { k * BlockSize + 1 : k \in 0..((TraceLen - 1) \div BlockSize) }
(* one line of output per unexplained event; always TRUE *)
Reject(line, why) == PrintT("REJECT " \o ToString(line) \o " " \o ToJson(why))
(* A verdict is <<>> (explained), <<"KNOWN", id>> (explained by the known finding id only)
   or anything else (unexplained: what was expected instead).                              *)
Report(line, v) ==
  IF v = <<>> THEN TRUE
  ELSE IF v[1] = "KNOWN" THEN PrintT("KNOWN " \o ToString(line) \o " " \o v[2])
  ELSE Reject(line, v)
=============================================================================

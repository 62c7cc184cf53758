------------------------------- MODULE Charset -------------------------------
(* The charset primitives, derived from the decoder/encoder of the encoding.               *)
EXTENDS Encodings

(* validate: size of the encoded code point, -1 if not a scalar value or not encodable.  U+FFFD
   is never "unsupported" (see Transcode): where the table lacks it, it is written as '?'.  *)
Validate(enc, cp) == IF IsScalar(cp) /\ (Encodable(enc, cp) \/ cp = ReplCP) THEN EncSize(enc, cp) ELSE -1

(* what encode_char writes: no sanitizing (a surrogate, or any value in UTF-32, is written as
   it is), the replacement character where the encoding has no units for it               *)
Writable(enc, cp) == CASE enc = "UTF-32" -> TRUE
                       [] enc \in {"UTF-8", "UTF-16"} -> cp <= 1114111
                       [] OTHER -> cp \in SBDom[enc]
EncodeChar(enc, cp) == IF Writable(enc, cp) THEN Encode(enc, cp) ELSE Repl(enc)
CharSize(enc, cp) == Len(EncodeChar(enc, cp))

(* a single unit; surrogate units are not sanitized *)
DecodeUnit(enc, u) ==
  CASE enc = "UTF-8" -> IF u < 128 THEN u ELSE ReplCP
    [] enc = "UTF-16" -> u
    [] enc = "UTF-32" -> IF u <= 1114111 THEN u ELSE ReplCP
    [] OTHER -> IF SBTable[enc][u + 1] = Bad THEN ReplCP ELSE SBTable[enc][u + 1]

(* counting: the number of code points (ill-formed sequences included) up to max, and where
   the last one counted ends                                                               *)
Min2(a, b) == IF a < b THEN a ELSE b
Count(enc, lax, s, max) ==
  LET it == Items(enc, lax, s)
      c == Min2(max, Len(it))
  IN <<c, IF c = 0 THEN 0 ELSE it[c].at - 1 + it[c].n>>
=============================================================================

----------------------------- MODULE TabCharsets -----------------------------
(* Dumps the encodings of the specification (decoder automata, single-byte tables, encoder
   rows) for exhaustive replay through the real charsets.                                    *)
EXTENDS Charset, TLC, Json, IOUtils, SequencesExt

StateNo(enc) == CASE enc = "UTF-8" -> <<"s","e0","ed","f0","f4","t1","t2","t3">>
                  [] enc = "UTF-16" -> <<"s","hs">>
                  [] OTHER -> <<"s">>
Idx(enc, st) == IF st = "emit" THEN 0 ELSE CHOOSE k \in DOMAIN StateNo(enc) : StateNo(enc)[k] = st
Rows(enc, lax) ==
  [k \in 1..Cardinality(TransOf(enc, lax)) |->
     LET q == SetToSeq(TransOf(enc, lax)) r == q[k]
     IN <<Idx(enc, r.f), r.lo, r.hi, Idx(enc, r.t), r.mul, r.b>>]
Auto(enc, lax) ==
  [k |-> "auto", n |-> enc, lax |-> (IF lax THEN 1 ELSE 0),
   rows |-> FlattenSeq(Rows(enc, lax)),
   lr |-> (IF LaxReject(enc, lax, "hs") THEN <<2, LaxRejectAdd>> ELSE <<0, 0>>)]

(* Encoder rows: within one row (a range of code points with the same number of units n) unit j
   is base_j + ((cp - off) \div div_j) % mod_j.  The rows are found from Enc8/Enc16 by
   EncRow and proved equal to them on a dense sample by RowsOK below.                       *)
EncRows(enc) ==
  CASE enc = "UTF-8" ->
        << <<0, 127, 1, 0,  0, 1, 128>>,
           <<128, 2047, 2, 0,  192, 64, 32,  128, 1, 64>>,
           <<2048, 65535, 3, 0,  224, 4096, 16,  128, 64, 64,  128, 1, 64>>,
           <<65536, 1114111, 4, 0,  240, 262144, 8,  128, 4096, 64,  128, 64, 64,  128, 1, 64>> >>
    [] enc = "UTF-16" ->
        << <<0, 65535, 1, 0,  0, 1, 65536>>,
           <<65536, 1114111, 2, 65536,  55296, 1024, 1024,  56320, 1, 1024>> >>
    [] OTHER -> << <<0, 1114111, 1, 0,  0, 1, 2097152>> >>
RowOf(enc, cp) == LET q == EncRows(enc) IN q[CHOOSE k \in DOMAIN q : q[k][1] <= cp /\ cp <= q[k][2]]
ByRow(enc, cp) == LET r == RowOf(enc, cp) IN
   [j \in 1..r[3] |-> r[5 + 3 * (j - 1)] + (((cp - r[4]) \div r[6 + 3 * (j - 1)]) % r[7 + 3 * (j - 1)])]
Dense == (0..4500) \union { c \in 0..1114111 : c % 997 = 0 } \union
         UNION { (b - 70)..(b + 70) : b \in {55296, 57344, 65536, 131072, 262144, 1048576, 1114040} }
ASSUME RowsOK == \A enc \in UTFNames : \A c \in Dense : ByRow(enc, c) = Encode(enc, c)

(* rows lo, hi, validate, encoded size (0: the replacement character is written) of the primitives *)
PrimRows(enc) ==
  CASE enc = "UTF-8" -> << <<0, 127, 1, 1>>, <<128, 2047, 2, 2>>, <<2048, 55295, 3, 3>>, <<55296, 57343, -1, 3>>,
                           <<57344, 65535, 3, 3>>, <<65536, 1114111, 4, 4>>, <<1114112, 2147483647, -1, 0>> >>
    [] enc = "UTF-16" -> << <<0, 55295, 1, 1>>, <<55296, 57343, -1, 1>>, <<57344, 65535, 1, 1>>,
                            <<65536, 1114111, 2, 2>>, <<1114112, 2147483647, -1, 0>> >>
    [] enc = "UTF-32" -> << <<0, 55295, 1, 1>>, <<55296, 57343, -1, 1>>, <<57344, 1114111, 1, 1>>, <<1114112, 2147483647, -1, 1>> >>
PrimOf(enc, cp) == LET q == PrimRows(enc) IN q[CHOOSE k \in DOMAIN q : q[k][1] <= cp /\ cp <= q[k][2]]
ASSUME PrimOK == \A enc \in UTFNames : \A c \in Dense \union {1114111, 1114112, 1114113, 2147483646, 2147483647} :
   /\ PrimOf(enc, c)[3] = Validate(enc, c)
   /\ PrimOf(enc, c)[4] = IF Writable(enc, c) THEN CharSize(enc, c) ELSE 0
ASSUME SBPrimOK == \A cs \in SBNames : \A b \in 1..256 : SBTable[cs][b] # Bad =>
   Validate(cs, SBTable[cs][b]) = 1 /\ EncodeChar(cs, SBTable[cs][b]) = <<b - 1>>
(* decode_unit: lo, hi, result (-1: the unit itself) *)
UnitRows(enc) ==
  CASE enc = "UTF-8" -> << <<0, 127, -1>>, <<128, 255, ReplCP>> >>
    [] enc = "UTF-16" -> << <<0, 65535, -1>> >>
    [] enc = "UTF-32" -> << <<0, 1114111, -1>>, <<1114112, 2147483647, ReplCP>> >>
ASSUME UnitOK == \A enc \in UTFNames : \A c \in (Dense \union {1114112, 2147483647}) :
   \A k \in DOMAIN UnitRows(enc) : (UnitRows(enc)[k][1] <= c /\ c <= UnitRows(enc)[k][2]) =>
      DecodeUnit(enc, c) = IF UnitRows(enc)[k][3] = -1 THEN c ELSE UnitRows(enc)[k][3]

Lines ==
  SetToSeq({ Auto(enc, lax) : enc \in UTFNames, lax \in BOOLEAN }
     \union { [k |-> "enc", n |-> enc, rows |-> FlattenSeq([j \in DOMAIN EncRows(enc) |-> <<Len(EncRows(enc)[j])>> \o EncRows(enc)[j]])] : enc \in UTFNames }
     \union { [k |-> "prim", n |-> enc, rows |-> FlattenSeq(PrimRows(enc)), units |-> FlattenSeq(UnitRows(enc)), repl |-> ReplChar(enc)] : enc \in UTFNames }
     \union { [k |-> "sb", n |-> cs, t |-> SBTable[cs]] : cs \in SBNames })
ASSUME ndJsonSerialize(IOEnv.VT_OUT, Lines)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

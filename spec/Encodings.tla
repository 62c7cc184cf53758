------------------------------ MODULE Encodings ------------------------------
(* Character encodings as decoder automata and encoders.

   A decoder automaton reads one code unit per transition.  A transition is a record
     f  source state            lo..hi  accepted units
     t  target state, or "emit" mul,b   accumulator update:  acc' = acc*mul + (unit - b)
   When no transition accepts the next unit (or the input ends) in a state other than "s",
   the units consumed since "s" form ONE ill-formed sequence (the "maximal subpart" practice)
   and the offending unit is read again from "s".  In "s" an unaccepted unit is itself an
   ill-formed sequence of length one.  Exception: LaxReject, see below.                    *)
EXTENDS Integers, Sequences, FiniteSets, CharsetTables

UTFNames == {"UTF-8", "UTF-16", "UTF-32"}
EncNames == UTFNames \union SBNames

R(f, lo, hi, t, mul, b) == [f |-> f, lo |-> lo, hi |-> hi, t |-> t, mul |-> mul, b |-> b]

U8Trans(lax) ==
  { R("s", 0, 127, "emit", 1, 0),
    R("s", 194, 223, "t1", 1, 192),
    R("s", 224, 224, "e0", 1, 224),
    R("s", 225, 236, "t2", 1, 224),
    R("s", 237, 237, IF lax THEN "t2" ELSE "ed", 1, 224),
    R("s", 238, 239, "t2", 1, 224),
    R("s", 240, 240, "f0", 1, 240),
    R("s", 241, 243, "t3", 1, 240),
    R("s", 244, 244, "f4", 1, 240),
    R("e0", 160, 191, "t1", 64, 128),
    R("ed", 128, 159, "t1", 64, 128),
    R("f0", 144, 191, "t2", 64, 128),
    R("f4", 128, 143, "t2", 64, 128),
    R("t3", 128, 191, "t2", 64, 128),
    R("t2", 128, 191, "t1", 64, 128),
    R("t1", 128, 191, "emit", 64, 128) }

U16Trans(lax) ==
  { R("s", 0, 55295, "emit", 1, 0),
    R("s", 57344, 65535, "emit", 1, 0),
    R("s", 55296, 56319, "hs", 1, 55232),
    R("hs", 56320, 57343, "emit", 1024, 56320) }
  \union (IF lax THEN { R("s", 56320, 57343, "emit", 1, 0) } ELSE {})

U32Trans(lax) ==
  { R("s", 0, 55295, "emit", 1, 0),
    R("s", 57344, 1114111, "emit", 1, 0) }
  \union (IF lax THEN { R("s", 55296, 57343, "emit", 1, 0) } ELSE {})

(* indexed by encoding, lax policy and state, so that TLC evaluates the sets once *)
States(enc) == CASE enc = "UTF-8" -> {"s","e0","ed","f0","f4","t1","t2","t3"}
                 [] enc = "UTF-16" -> {"s","hs"}
                 [] OTHER -> {"s"}
TransOf(enc, lax) == CASE enc = "UTF-8" -> U8Trans(lax)
                       [] enc = "UTF-16" -> U16Trans(lax)
                       [] enc = "UTF-32" -> U32Trans(lax)
TransTab ==
  [enc \in UTFNames |-> [lax \in BOOLEAN |-> [st \in States(enc) |->
      { r \in TransOf(enc, lax) : r.f = st }]]]

(* With the lax surrogate policy an unpaired high surrogate is a code point, not an error:
   in state "hs" the automaton then emits acc + 55232 instead of reporting an error.        *)
LaxReject(enc, lax, st) == lax /\ enc = "UTF-16" /\ st = "hs"
LaxRejectAdd == 55232

Bad == -1

(* Read one code point (or one ill-formed sequence) of s starting at index i: [cp, n]. *)
RECURSIVE Run(_,_,_,_,_,_,_)
Run(enc, lax, s, i, k, st, acc) ==
  LET reject == IF LaxReject(enc, lax, st) THEN [cp |-> acc + LaxRejectAdd, n |-> k - i]
                ELSE [cp |-> Bad, n |-> IF k = i THEN 1 ELSE k - i]
  IN IF k > Len(s) THEN reject
     ELSE LET u == s[k]
              cand == { r \in TransTab[enc][lax][st] : r.lo <= u /\ u <= r.hi }
          IN IF cand = {} THEN reject
             ELSE LET r == CHOOSE r \in cand : TRUE
                      a == acc * r.mul + (u - r.b)
                  IN IF r.t = "emit" THEN [cp |-> a, n |-> k - i + 1]
                     ELSE Run(enc, lax, s, i, k + 1, r.t, a)

Decode(enc, lax, s, i) ==
  IF enc \in UTFNames THEN Run(enc, lax, s, i, i, "s", 0)
  ELSE [cp |-> (IF s[i] \in 0..255 THEN SBTable[enc][s[i] + 1] ELSE Bad), n |-> 1]

IsSurrogate(cp) == 55296 <= cp /\ cp <= 57343
IsScalar(cp) == (0 <= cp /\ cp <= 55295) \/ (57344 <= cp /\ cp <= 1114111)

(* --------------------------------- encoders --------------------------------- *)
Enc8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) ==
  IF c < 65536 THEN <<c>>
  ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>

(* inverse of a single-byte table, as a function on the (few) non-identity code points *)
SBDom == [cs \in SBNames |-> { SBTable[cs][b] : b \in 1..256 } \ {Bad}]
SBInv == [cs \in SBNames |-> [c \in SBDom[cs] |-> (CHOOSE b \in 1..256 : SBTable[cs][b] = c) - 1]]

Encodable(enc, cp) == enc \in UTFNames \/ cp \in SBDom[enc]
Encode(enc, cp) ==
  CASE enc = "UTF-8" -> Enc8(cp)
    [] enc = "UTF-16" -> Enc16(cp)
    [] enc = "UTF-32" -> <<cp>>
    [] OTHER -> <<SBInv[enc][cp]>>
ReplCP == 65533
QMark == 63
Repl(enc) == IF enc \in UTFNames THEN Encode(enc, ReplCP) ELSE <<QMark>>
ReplChar(enc) == IF enc \in UTFNames THEN ReplCP ELSE QMark
EncSize(enc, cp) ==
  CASE enc = "UTF-8" -> (IF cp < 128 THEN 1 ELSE IF cp < 2048 THEN 2 ELSE IF cp < 65536 THEN 3 ELSE 4)
    [] enc = "UTF-16" -> (IF cp < 65536 THEN 1 ELSE 2)
    [] OTHER -> 1
EncodeOrRepl(enc, cp) == IF Encodable(enc, cp) THEN Encode(enc, cp) ELSE Repl(enc)

(* all code points of s, ill-formed sequences as Bad *)
RECURSIVE ItemsFrom(_,_,_,_)
ItemsFrom(enc, lax, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET d == Decode(enc, lax, s, i)
       IN <<[cp |-> d.cp, at |-> i, n |-> d.n]>> \o ItemsFrom(enc, lax, s, i + d.n)
Items(enc, lax, s) == ItemsFrom(enc, lax, s, 1)
Valid(enc, lax, s) == \A k \in DOMAIN Items(enc, lax, s) : Items(enc, lax, s)[k].cp # Bad
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* the text's code points, each error replaced by U+FFFD *)
CPs(enc, lax, s) ==
  LET it == Items(enc, lax, s)
  IN [k \in DOMAIN it |-> IF it[k].cp = Bad THEN ReplCP ELSE it[k].cp]
EncodeAll(enc, cps) == Flat([k \in DOMAIN cps |-> EncodeOrRepl(enc, cps[k])])
=============================================================================

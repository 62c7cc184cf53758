-------------------------------- MODULE TabGcb --------------------------------
(* The cluster-boundary rules of Graphemes as an automaton: its states are found by exhaustive
   exploration, and dumped (with an access string each) together with the code point tables
   for exhaustive replay through the real width calculator.                                  *)
EXTENDS Graphemes, TLC, Json, IOUtils, SequencesExt, FiniteSets
Classes == << "CN", "CR", "LF", "EX", "ZWJ", "SM", "PP", "RI", "L", "V", "T", "LV", "LVT", "XP", "XX" >>
Rep == << 1, 13, 10, 769, 8205, 2307, 1536, 127462, 4352, 4448, 4520, 44032, 44033, 128512, 65 >>
ASSUME RepOK == \A k \in DOMAIN Rep : Gcb(Rep[k]) = Classes[k]
ClsNo(c) == CHOOSE k \in DOMAIN Classes : Classes[k] = c
S0 == [p |-> "", ri |-> 0, pic |-> 0]
Tr(s, c) == [p |-> c, ri |-> NextRi(c, s.ri), pic |-> NextPic(c, s.pic)]
Br(s, c) == s.p = "" \/ Break(s.p, c, s.ri, s.pic)
(* breadth-first: a sequence of [s, path] *)
RECURSIVE Explore(_, _)
Explore(done, i) ==
  IF i > Len(done) THEN done
  ELSE LET succ(k) == [s |-> Tr(done[i].s, Classes[k]), path |-> Append(done[i].path, Rep[k])]
           RECURSIVE Add(_, _)
           Add(d, k) == IF k > Len(Classes) THEN d
                        ELSE LET n == succ(k) IN Add(IF \E j \in DOMAIN d : d[j].s = n.s THEN d ELSE Append(d, n), k + 1)
       IN Explore(Add(done, 1), i + 1)
All == Explore(<< [s |-> S0, path |-> <<>>] >>, 1)
No(s) == CHOOSE j \in DOMAIN All : All[j].s = s
(* the automaton agrees with Starts *)
ASSUME PathsOK == \A j \in DOMAIN All : \A k \in DOMAIN Rep :
   LET t == Append(All[j].path, Rep[k]) IN (Last(Starts(t)) = Len(t)) = Br(All[j].s, Classes[k])
Lines ==
  << [k |-> "gcb", lo |-> GcbLo, cls |-> [i \in DOMAIN GcbCls |-> IF GcbCls[i] = "HS" THEN 0 ELSE ClsNo(GcbCls[i])],
      hs |-> <<44032, 28, ClsNo("LV"), ClsNo("LVT")>>, rep |-> Rep],
     [k |-> "wide", r |-> FlattenSeq(WideRanges)] >>
  \o [j \in DOMAIN All |-> [k |-> "state", path |-> All[j].path,
        to |-> [c \in DOMAIN Classes |-> No(Tr(All[j].s, Classes[c]))],
        br |-> [c \in DOMAIN Classes |-> IF Br(All[j].s, Classes[c]) THEN 1 ELSE 0]]]
ASSUME ndJsonSerialize(IOEnv.VT_OUT, Lines)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

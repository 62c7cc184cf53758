------------------------------- MODULE NumModel -------------------------------
(* Integer formatting and grouping, explored: every combination of value, base, sign, precision, zero
   padding, punctuation and alignment of a small domain is a state; the invariants say what a reader of
   the printed text relies on (C14, C15).  They parse the text; they do not repeat how it is made.   *)
EXTENDS Printing, TLC
CONSTANTS Vals, Precs, Pads, Ws, Gs
VARIABLES a, np, r    \* the argument, the punctuation, and what is printed (none before Print)
Fill == 42
None == [t |-> <<>>, w |-> -1]
Start == { [k |-> "int", ty |-> "schar", sg |-> sg, v |-> <<x>>, base |-> b, sb |-> FALSE, punct |-> FALSE, prec |-> 0, pad0 |-> 0, sign |-> "neg", f |-> [fill |-> Fill, w |-> 0, al |-> ">"]]
            : x \in Vals, b \in {2, 8, 10, 16}, sg \in BOOLEAN }
Init == a \in Start /\ np = [g |-> <<3>>, fin |-> FALSE, sep |-> 44] /\ r = None
Fac(p) == [c |-> "np" \o (CASE a.base = 10 -> "10" [] a.base = 16 -> "16" [] a.base = 8 -> "8" [] OTHER -> "2"), on |-> <<"*">>, g |-> p.g, fin |-> p.fin, sep |-> p.sep, dec |-> 46]
EnvOf(p) == [cs |-> "UTF-8", ct |-> "char", fs |-> <<Fac(p)>>]
Print == /\ r = None
         /\ \E sb \in BOOLEAN, pu \in BOOLEAN, pr \in Precs, pd \in Pads, si \in {"neg", "pos", "fill"}, w \in Ws, al \in {"<", ">", "^"} :
              /\ si # "neg" => a.base = 10 /\ a.sg
              /\ sb => a.base # 10
              /\ w = 0 => al = ">"
              /\ a' = [a EXCEPT !.sb = sb, !.punct = pu, !.prec = pr, !.pad0 = pd, !.sign = si, !.f = [fill |-> Fill, w |-> w * One, al |-> al]]
              /\ np' \in (IF pu THEN [g : Gs, fin : BOOLEAN, sep : {44}] ELSE {np})
              /\ r' = Render(EnvOf(np'), a')
Next == Print
Spec == Init /\ [][Next]_<<a, np, r>>
T == r.t
Value == IF a.sg /\ a.base = 10 /\ a.v[1] >= 128 THEN a.v[1] - 256 ELSE a.v[1]
Mag == IF Value < 0 THEN -Value ELSE Value
(* reading the text: fill, sign, prefix, digits with separators, fill *)
RECURSIVE SkipFill(_, _)
SkipFill(s, i) == IF i <= Len(s) /\ s[i] = Fill THEN SkipFill(s, i + 1) ELSE i
L == SkipFill(T, 1)
RECURSIVE LastNotFill(_, _)
LastNotFill(s, i) == IF i >= 1 /\ s[i] = Fill THEN LastNotFill(s, i - 1) ELSE i
H == LastNotFill(T, Len(T))
Core == SubSeq(T, L, H)
Signed == Core # <<>> /\ Core[1] \in {43, 45}
AfterSign == IF Signed THEN Tail(Core) ELSE Core
HasBase == Len(AfterSign) >= 2 /\ AfterSign[1] = 48 /\ AfterSign[2] \in {120, 98} /\ a.base \in {16, 2} /\ a.sb
Ds == IF HasBase THEN SubSeq(AfterSign, 3, Len(AfterSign)) ELSE AfterSign
NoSep == SelectSeq(Ds, LAMBDA c : c # 44)
DVal(c) == IF c < 58 THEN c - 48 ELSE c - 87
RECURSIVE Read(_, _)
Read(s, acc) == IF s = <<>> THEN acc ELSE Read(Tail(s), acc * a.base + DVal(Head(s)))
FillSign == a.base = 10 /\ a.sg /\ a.sign = "fill" /\ Value >= 0
(* ---- C14 *)
OnlyDigits == r # None => NoSep # <<>> /\ \A i \in 1..Len(NoSep) : DVal(NoSep[i]) \in 0..(a.base - 1)
ReadsBack == r # None => Read(NoSep, 0) = Mag
SignRight == r # None => (Signed /\ Core[1] = 45) = (Value < 0) /\ (Signed /\ Core[1] = 43) = (Value >= 0 /\ a.sg /\ a.base = 10 /\ a.sign = "pos")
BaseShown == r # None => (a.base \in {16, 2}) => HasBase = a.sb
OctalShown == r # None => (a.base = 8 /\ a.sb) => NoSep[1] = 48
MinDigits == r # None => Len(NoSep) >= a.prec
MinPadded == r # None => Len(T) >= a.pad0
MinWidth == r # None => Len(T) * One >= a.f.w
WidthIsLength == r # None => r.w = Len(T) * One
NothingExtra == r # None =>   \* nothing is longer than the longest demand requires
  LET pre == (IF Signed \/ FillSign THEN 1 ELSE 0) + (IF HasBase THEN 2 ELSE 0)
      minimal == SkipFill([i \in 1..Len(NoSep) |-> IF NoSep[i] = 48 THEN Fill ELSE 0], 1)   \* first digit that is not 0
      zeros == minimal - 1
      body == Len(Core) + (IF FillSign THEN 1 ELSE 0)
  IN /\ (Len(T) > body => Len(T) * One = a.f.w)
     /\ (zeros > 0 /\ Mag # 0 => Len(NoSep) = a.prec \/ body = a.pad0 \/ (a.base = 8 /\ a.sb /\ zeros = 1))
FillSides == r # None => LET n == (IF FillSign THEN 1 ELSE 0) IN
   CASE a.f.al = "<" -> L - 1 = n
     [] a.f.al = ">" -> H = Len(T)
     [] OTHER -> LET l == L - 1 - n
                     r == Len(T) - H IN l = r \/ l + 1 = r
(* ---- C15 *)
SepRun == [i \in 1..Len(Ds) |-> Ds[i] = 44]
Grouped == r # None => LET digits == Len(NoSep)
               gs == Groups(np.g, np.fin, Len(Digits(<<Mag>>, a.base)))
               at == { i \in 1..Len(Ds) : Ds[i] = 44 }
               after(i) == Cardinality({ j \in (i + 1)..Len(Ds) : Ds[j] # 44 })
               sums == { after(i) : i \in at }
           IN IF a.punct THEN /\ Cardinality(at) = Len(gs) - 1
                              /\ \A k \in 1..(Len(gs) - 1) : (LET RECURSIVE S(_) S(n) == IF n = 0 THEN 0 ELSE gs[n] + S(n - 1) IN S(k)) \in sums
              ELSE at = {}
SepNotFirst == r # None => Ds[1] # 44 /\ Ds[Len(Ds)] # 44
=============================================================================

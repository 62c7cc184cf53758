------------------------------ MODULE TraceWidthT ------------------------------
(* Events of drv_widtht: arithmetic of strf::width_t, judged with unbounded integers.
   Operands and results are little-endian two's complement bytes (a, b, got).                *)
EXTENDS TraceBase, Big
VARIABLE l
OneZ == BOfInt(65536)
MaxZ == Z(FALSE, BSub(BPow(2, 31), <<1>>))
MinZ == Z(TRUE, BPow(2, 31))
Sat(x) == IF ZCmp(x, MaxZ) > 0 THEN MaxZ ELSE IF ZCmp(x, MinZ) < 0 THEN MinZ ELSE x
InRange(x) == ZCmp(x, MaxZ) <= 0 /\ ZCmp(x, MinZ) >= 0
Fix(x) == Z(x.neg, BMul(x.m, OneZ))        \* an integer as a width
FloorZ(x) == ZFloorDivPow2(x, OneZ)
CeilZ(x) == ZNeg(FloorZ(ZNeg(x)))
(* nearest, halves: downwards if not negative, upwards (away from minus infinity) if negative, as documented by the code's tests *)
RoundZ(x) == LET f == FloorZ(x)
                 fr == ZSub(x, Fix(f)).m      \* fraction in 1/65536
                 c == BCmp(fr, BOfInt(32768))
             IN IF c > 0 \/ (c = 0 /\ x.neg) THEN ZAdd(f, ZInt(1)) ELSE f
Arg(bs, signed) == ZOfBytes(bs, signed)
MulTrunc(x, y) == LET p == BMul(x.m, y.m) IN Z(x.neg # y.neg, BDiv(p, OneZ).q)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
(* a width x and y: a width, or an integer (then r.i) taken as width exactly *)
Expect(r) ==
  LET x == Arg(r.a, TRUE)
      y == IF "b" \in DOMAIN r THEN Arg(r.b, r.bs) ELSE ZInt(0)
      yw == IF r.i THEN Fix(y) ELSE y
  IN CASE r.op = "add" -> ZAdd(x, yw)
       [] r.op = "sub" -> ZSub(x, yw)
       [] r.op = "rsub" -> ZSub(yw, x)
       [] r.op = "mul" -> Sat(MulTrunc(x, yw))
       [] r.op = "div" -> LET q == BDiv(BMul(x.m, OneZ), yw.m).q IN Z(x.neg # yw.neg, q)
       [] r.op = "rdiv" -> LET q == BDiv(BMul(yw.m, OneZ), x.m).q IN Z(x.neg # yw.neg, q)
       [] r.op = "neg" -> ZNeg(x)
       [] r.op = "sat_add" -> Sat(ZAdd(x, yw))
       [] r.op = "sat_sub" -> Sat(ZSub(x, yw))
       [] r.op = "sat_mul" -> Sat(IF r.i THEN ZMul(x, y) ELSE MulTrunc(x, y))
       [] r.op = "from" -> Sat(Fix(y))
       [] r.op = "floor" -> FloorZ(x)
       [] r.op = "ceil" -> CeilZ(x)
       [] r.op = "round" -> RoundZ(x)
       [] r.op = "nnfloor" -> IF x.neg THEN ZInt(0) ELSE FloorZ(x)
       [] r.op = "nnceil" -> IF x.neg THEN ZInt(0) ELSE CeilZ(x)
       [] r.op = "cmp" -> ZInt(Sgn(ZCmp(x, yw)))
       [] r.op = "rcmp" -> ZInt(Sgn(ZCmp(yw, x)))
(* the operators without saturation are only defined when the result is a width *)
Defined(r) == LET e == Expect(r) IN r.op \notin {"add", "sub", "rsub", "div", "rdiv", "neg"} \/ InRange(e)
JudgeW(r) ==
  IF r.op = "lit" THEN (* literals: a = integer part, b = fraction digits; got = underlying *)
       LET scale == BPow(10, Len(r.b))
           v == BMul(BAdd(BMul(Arg(r.a, FALSE).m, scale), LET RECURSIVE D(_, _)
                                                        D(ds, acc) == IF ds = <<>> THEN acc ELSE D(Tail(ds), BAdd(BMulInt(acc, 10), BOfInt(Head(ds))))
                                                    IN D(r.b, <<>>)), OneZ)
           g == BMul(Arg(r.got, TRUE).m, scale)
           d == IF BCmp(v, g) >= 0 THEN BSub(v, g) ELSE BSub(g, v)
       IN IF BCmp(BMulInt(d, 2), scale) <= 0 THEN <<>> ELSE <<"the literal is not the nearest width">>
  ELSE LET e == Expect(r) IN
    IF ~Defined(r) THEN <<"driver: undefined operation">>
    ELSE IF Arg(r.got, TRUE) = e THEN <<>> ELSE <<r.op, e>>
Init == l \in BlockStarts
Next == /\ l <= TraceLen
        /\ Report(l, JudgeW(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("distinct") = TraceLen + 1
=============================================================================

------------------------------ MODULE MCFixed ------------------------------
(* Self-test of FixedPoint against values computed elsewhere (fx.json).     *)
EXTENDS FixedPoint, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Op(e) == CASE e.op = "mul" -> Mul(e.a, e.b) [] e.op = "div" -> Div(e.a, e.b) [] e.op = "exp" -> ExpNeg(e.a)
  [] e.op = "sqrt" -> Sqrt(e.a) [] e.op = "sin" -> Sin(e.a) [] e.op = "cos" -> Cos(e.a)
  [] e.op = "cdivre" -> CDiv(<<e.a, e.b>>, <<e.b, e.a \div 2 + 7>>)[1]
  [] e.op = "csqrtim" -> CSqrt(<<e.a, e.b>>)[2]
Init == l = 1
Next == /\ l <= Len(T) /\ l' = l + 1
        /\ LET e == T[l] r == Op(e) IN IF Near(r, e.r, e.tol) THEN TRUE ELSE PrintT(<<"FAIL", l, e, r>>)
=============================================================================

----------------------------- MODULE FixedPoint -----------------------------
(* Fixed-point arithmetic (unit 1e-6) in TLC's 32-bit integers, so that the   *)
(* specifications can be an independent numerical oracle for the real code.   *)
(* Every operator is total: out-of-range results saturate to Bad, and Bad is  *)
(* never within any tolerance of a legitimate value.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

S    == 1000000
Bad  == 2000000000
Lim  == 1900000000

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Ok(x) == Abs(x) < Lim
Clamp(x) == IF x > Lim THEN Lim ELSE IF x < -Lim THEN -Lim ELSE x

\* saturating addition and subtraction
Add(a, b) == IF ~Ok(a) \/ ~Ok(b) THEN Bad
             ELSE IF (a > 0 /\ b > Lim - a) \/ (a < 0 /\ b < -Lim - a) THEN Bad ELSE a + b
Sub(a, b) == IF ~Ok(b) THEN Bad ELSE Add(a, -b)
Near(a, b, tol) == Ok(a) /\ Ok(b) /\ Abs(a \div 4 - b \div 4) < 400000000 /\ Abs(a - b) <= tol

RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)

Mul(a, b) ==
  IF ~Ok(a) \/ ~Ok(b) THEN Bad ELSE
  LET x == Abs(a)  y == Abs(b)
      x1 == x \div 1000  x0 == x % 1000
      y1 == y \div 1000  y0 == y % 1000
  IN IF y1 > 0 /\ x1 > 1700000000 \div y1 THEN Bad
     ELSE Sgn(a) * Sgn(b) * (x1 * y1 + RDiv(x1 * y0 + x0 * y1 + RDiv(x0 * y0, 1000), 1000))

RECURSIVE DivDigits(_, _, _, _)
DivDigits(q, r, y, k) == IF k = 0 THEN (IF 2 * r >= y THEN q + 1 ELSE q)
                         ELSE DivDigits(q * 10 + (r * 10) \div y, (r * 10) % y, y, k - 1)
RECURSIVE Div(_, _)
Div(a, b) ==
  IF ~Ok(a) \/ ~Ok(b) \/ b = 0 THEN Bad ELSE
  LET x == Abs(a)  y == Abs(b) IN
  IF y > 200000000 THEN Div(RDiv(a, 10), RDiv(b, 10))
  ELSE IF x \div y > 1800 THEN Bad
  ELSE Sgn(a) * Sgn(b) * DivDigits(x \div y, x % y, y, 6)

Sum(s)    == FoldLeft(LAMBDA a, b : Add(a, b), 0, s)
SumOver(f, n) == Sum([i \in 1..n |-> f[i]])
MaxSeq(s) == FoldLeft(LAMBDA a, b : MaxI(a, b), -Bad, s)
MinSeq(s) == FoldLeft(LAMBDA a, b : MinI(a, b), Bad, s)

\* e^-x for x >= 0
ExpTab == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>
ExpNeg(x) ==
  IF ~Ok(x) THEN Bad ELSE
  IF x <= 0 THEN S ELSE
  IF x >= 15 * S THEN 0 ELSE
  LET n == x \div S   f == x % S
      h[k \in 1..12] == IF k = 12 THEN S ELSE S - RDiv(Mul(f, h[k + 1]), k)
  IN Mul(ExpTab[n + 1], h[1])

\* square root by Newton iteration from above
RECURSIVE NewtonSqrt(_, _, _)
NewtonSqrt(x, y, k) == LET z == (y + Div(x, y)) \div 2
                       IN IF k = 0 \/ z >= y THEN y ELSE NewtonSqrt(x, z, k - 1)
SqrtStart(x) == IF x >= 100 * S THEN 46 * S ELSE IF x >= 10 * S THEN 10 * S + S ELSE IF x >= S THEN 4 * S
                ELSE IF x >= 100000 THEN S + S \div 10 ELSE IF x >= 10000 THEN 330000 ELSE IF x >= 100 THEN 101000 ELSE 11000
Sqrt(x) == IF ~Ok(x) THEN Bad ELSE IF x <= 0 THEN 0 ELSE NewtonSqrt(x, SqrtStart(x), 40)

\* sine and cosine (argument in radians)
PI == 3141593
TwoPi == 6283185
Red(x) == LET k == IF x >= 0 THEN x \div TwoPi ELSE -((-x) \div TwoPi) - 1
          IN x - k * TwoPi - RDiv(k * 307, 1000)           \* into [0, 2pi]
SinT(f) == LET q == Mul(f, f)                                \* |f| <= pi/4
               h[k \in 1..6] == IF k = 6 THEN S ELSE S - RDiv(Mul(q, h[k + 1]), (2*k) * (2*k + 1))
           IN Mul(f, h[1])
CosT(f) == LET q == Mul(f, f)
               h[k \in 1..6] == IF k = 6 THEN S ELSE S - RDiv(Mul(q, h[k + 1]), (2*k - 1) * (2*k))
           IN h[1]
SinCos(x) ==
  IF ~Ok(x) \/ Abs(x) > 1500000000 THEN <<Bad, Bad>> ELSE
  LET y == Red(x)
      o == (y + 785398) \div 1570796           \* nearest multiple of pi/2
      f == y - o * 1570796 - RDiv(o * 327, 1000)
      s == SinT(f)  c == CosT(f)
  IN CASE o % 4 = 0 -> <<s, c>> [] o % 4 = 1 -> <<c, -s>> [] o % 4 = 2 -> <<-s, -c>> [] OTHER -> <<-c, s>>
Sin(x) == SinCos(x)[1]
Cos(x) == SinCos(x)[2]

\* complex numbers <<re, im>>
CAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
CSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2])>>
CMul(a, b) == <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
Abs2(a) == Add(Mul(a[1], a[1]), Mul(a[2], a[2]))
\* division with scaling so that small and large denominators keep their precision
CDiv(a, b) ==
  LET m == MaxI(Abs(b[1]), Abs(b[2]))
  IN IF ~Ok(m) \/ m = 0 THEN <<Bad, Bad>> ELSE
     LET u == <<Div(b[1], m), Div(b[2], m)>>            \* |u| in [1, 1.5]
         v == CMul(a, CConj(u))
         w == Mul(Abs2(u), m)
     IN <<Div(v[1], w), Div(v[2], w)>>
CAbs(a) == LET m == MaxI(Abs(a[1]), Abs(a[2])) IN
           IF ~Ok(m) THEN Bad ELSE IF m = 0 THEN 0 ELSE
           LET u == <<Div(a[1], m), Div(a[2], m)>> IN Mul(m, Sqrt(Abs2(u)))
\* principal root (Re >= 0; for negative reals Im >= 0)
CSqrt(a) ==
  LET m == CAbs(a) IN
  IF ~Ok(m) THEN <<Bad, Bad>> ELSE IF m = 0 THEN <<0, 0>> ELSE
  IF a[1] >= 0
  THEN LET x == Sqrt((m + a[1]) \div 2) IN <<x, IF x = 0 THEN 0 ELSE Div(a[2], 2 * x)>>
  ELSE LET y == Sqrt((m - a[1]) \div 2) IN
       <<Div(Abs(a[2]), 2 * y), IF a[2] < 0 THEN -y ELSE y>>
COk(a) == Ok(a[1]) /\ Ok(a[2])

\* a clause of a conformance check: the set of names of violated clauses
Chk(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================

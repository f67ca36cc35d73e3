------------------------------- MODULE Surface ------------------------------
(* A textured surface as an object with a history. Abstractly a surface is   *)
(* its shape (points relative to the base, per unit height), the height of   *)
(* the base and the current height of the texture. Shifting moves the base,  *)
(* refreshing picks a height of the distribution, copying gives an           *)
(* independent surface in the same state.                                    *)
EXTENDS FixedPoint
\* one abstract surface: base (height of the base), h (current height of the texture), H (heights which may be drawn;
\* empty: no distribution)
Shifted(s, dz) == [s EXCEPT !.base = Sub(@, dz)]
Drawn(s, h)    == [s EXCEPT !.h = h]
Draws(s)       == IF s.H = {} THEN {s.h} ELSE s.H
\* z of a point whose height relative to the base was r when the height of the texture was h0
ZOf(s, r, h0)  == IF s.h = h0 THEN Add(s.base, r) ELSE Add(s.base, Mul(r, Div(s.h, h0)))
Cross(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])), Sub(Mul(a[3], b[1]), Mul(a[1], b[3])), Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
Dot(a, b)   == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
VSub(a, b)  == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
VLen(a) == Sqrt(Dot(a, a))
=============================================================================

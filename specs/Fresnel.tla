------------------------------- MODULE Fresnel -------------------------------
(* A ray at a surface made of plane facets. Above the surface the index is n1, *)
(* below it n2 (real). A facet is its unit normal, pointing up. A ray has a    *)
(* direction v (unit vector) and is above (side 1) or below (side 2).          *)
EXTENDS Tmm

Dot(a, b) == Sum(<<Mul(a[1], b[1]), Mul(a[2], b[2]), Mul(a[3], b[3])>>)
Lin(x, a, y, b) == <<Add(Mul(x, a[1]), Mul(y, b[1])), Add(Mul(x, a[2]), Mul(y, b[2])), Add(Mul(x, a[3]), Mul(y, b[3]))>>
Unit(th, ph) == LET t == SinCos(th)  p == SinCos(ph) IN <<Mul(t[1], p[2]), Mul(t[1], p[1]), t[2]>>

\* reflectance of a plane interface between complex indices, at an angle in the first one
Reflectance(na, nb, pol, th) ==
  LET m == <<[n |-> na, d |-> 0, inc |-> FALSE], [n |-> nb, d |-> 0, inc |-> FALSE]>>
  IN Result(m, pol, Mul(na[1], Sin(th))).R

\* a ray can only meet a facet it travels towards
Meets(r, f) == IF r.side = 1 THEN Dot(r.v, f) < -50 ELSE Dot(r.v, f) > 50
Turned(r, f) == [r EXCEPT !.v = Lin(S, r.v, -2 * Dot(r.v, f), f)]
\* refraction: k is the square of the cosine of the refracted angle; negative beyond the critical angle
Ratio(r, n1, n2) == IF r.side = 1 THEN Div(n1, n2) ELSE Div(n2, n1)
CosT2(r, f, n1, n2) == LET c == Dot(r.v, f)  q == Ratio(r, n1, n2) IN Sub(S, Mul(Mul(q, q), Sub(S, Mul(c, c))))
Bent(r, f, n1, n2) ==
  LET N == IF r.side = 1 THEN f ELSE <<-f[1], -f[2], -f[3]>>     \* against the ray
      c == -Dot(r.v, N)  q == Ratio(r, n1, n2)
  IN [v |-> Lin(q, r.v, Sub(Mul(q, c), Sqrt(CosT2(r, f, n1, n2))), N), side |-> 3 - r.side]
Total(r, f, n1, n2) == CosT2(r, f, n1, n2) < 0

\* what can come of meeting a facet: mode "both", "R" (always reflected), "T" (never reflected unless totally)
Outcomes(r, f, n1, n2, mode) ==
  LET k == CosT2(r, f, n1, n2)
      near == Abs(k) < 300                                   \* too close to the critical angle to decide
  IN (IF mode # "T" \/ k < 0 \/ near THEN {Turned(r, f)} ELSE {})
     \cup (IF mode # "R" /\ k > 0 THEN {Bent(r, f, n1, n2)} ELSE {})
RECURSIVE Reach(_, _, _, _, _, _)
Reach(rs, facets, n1, n2, mode, k) ==
  IF k = 0 THEN rs
  ELSE Reach(TLCEval(UNION {UNION {Outcomes(r, f, n1, n2, mode) : f \in {f \in facets : Meets(r, f)}} : r \in rs}), facets, n1, n2, mode, k - 1)
\* rays which may leave the surface
Leaves(r) == IF r.side = 1 THEN r.v[3] > -50 ELSE r.v[3] < 50

\* standard facets: planar, V grooves along an axis, pyramids (normals turned by a from the vertical)
Facets(kind, a) ==
  LET t == SinCos(a)  s == t[1]  c == t[2] IN
  CASE kind = "planar" -> {<<0, 0, S>>}
    [] kind = "groovex" -> {<<0, s, c>>, <<0, -s, c>>}       \* grooves along x
    [] kind = "groovey" -> {<<s, 0, c>>, <<-s, 0, c>>}
    [] kind = "pyramid" -> {<<s, 0, c>>, <<-s, 0, c>>, <<0, s, c>>, <<0, -s, c>>}
=============================================================================

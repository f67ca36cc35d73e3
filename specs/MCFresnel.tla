------------------------------ MODULE MCFresnel ------------------------------
(* Design check of reflection and refraction at facets.                        *)
EXTENDS Fresnel
CONSTANTS Thetas, Phis, Alphas, Ns, MaxHits
TA == {0, 200000, 600000, 1000000, 1300000}
PA == {0, 700000, 1570796, 2400000, 4000000, 5500000}
AA == {300000, 610865, 954000}
NA == {1000000, 1300000, 2000000, 3500000}
VARIABLES n1, n2, kind, a, r, h, last
vars == <<n1, n2, kind, a, r, h, last>>
None == [v |-> <<0, 0, 0>>, side |-> 0]
Init == /\ n1 \in Ns /\ n2 \in Ns
        /\ kind \in {"planar", "groovex", "pyramid"} /\ a \in (IF kind = "planar" THEN {0} ELSE Alphas)
        /\ \E t \in Thetas, p \in Phis, s \in {1, 2} :
             r = [v |-> LET u == Unit(t, p) IN IF s = 1 THEN <<-u[1], -u[2], -u[3]>> ELSE u, side |-> s]
        /\ h = 0 /\ last = <<>>
Next == /\ h < MaxHits
        /\ \E f \in Facets(kind, a) : Meets(r, f) /\ \E q \in Outcomes(r, f, n1, n2, "both") :
             r' = q /\ last' = <<r, f>>
        /\ h' = h + 1 /\ UNCHANGED <<n1, n2, kind, a>>
UnitLength == Near(Dot(r.v, r.v), S, 200 * (h + 1))
NI(s) == IF s = 1 THEN n1 ELSE n2
Along(v, f) == Lin(S, v, -Dot(v, f), f)
\* the law of reflection and refraction: what is conserved along the facet is n times the tangential component
Tangential == last # <<>> => LET p == last[1]  f == last[2]  u == Along(p.v, f)  w == Along(r.v, f) IN
                \A i \in 1..3 : Near(Mul(NI(p.side), u[i]), Mul(NI(r.side), w[i]), 600 * h)
Sides == last # <<>> => LET p == last[1]  f == last[2]  c == Dot(p.v, f)  e == Dot(r.v, f) IN
           IF p.side = r.side THEN (c > 0) = (e < 0) ELSE (c > 0) = (e > 0) \/ Abs(e) < 3000
\* going back the way it came: the refracted ray turned round ends where the ray came from
Reversible == (last # <<>> /\ last[1].side # r.side /\ Abs(Dot(r.v, last[2])) > 100000) =>
                LET b == [v |-> <<-r.v[1], -r.v[2], -r.v[3]>>, side |-> r.side] IN
                \E q \in Outcomes(b, last[2], n1, n2, "T") : q.side = last[1].side /\ \A i \in 1..3 : Near(q.v[i], -last[1].v[i], 8000 * (h + 1))
\* reflectance: total beyond the critical angle, symmetric, none for equal indices, no p light at Brewster's angle
Reflects == h = 0 /\ kind = "planar" /\ r.side = 1 =>
  LET th == TLCEval(CHOOSE t \in Thetas : Near(Cos(t), -r.v[3], 3))
      R(p) == Reflectance(<<n1, 0>>, <<n2, 0>>, p, th)
      si == Div(Mul(n1, Sin(th)), n2)
  IN /\ \A p \in {"s", "p", "u"} : R(p) >= 0 /\ R(p) <= S + 2
     /\ (si > S + 1000 => \A p \in {"s", "p"} : Near(R(p), S, 3))
     /\ (n1 = n2 => R("s") <= 1 /\ R("p") <= 1)
     /\ Near(2 * R("u"), R("s") + R("p"), 3)
     /\ (th = 0 => Near(R("s"), R("p"), 3))
=============================================================================

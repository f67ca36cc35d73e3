----------------------------- MODULE Diffraction ----------------------------
(* Grouping of diffraction orders.  A lattice is given exactly by its Gram    *)
(* matrix g = <<a1.a1, a1.a2, a2.a2>> (integers); the in-plane wavevector of  *)
(* order <<m1, m2>> has length 2 pi sqrt(Q / det), Q an integer.              *)
EXTENDS FixedPoint
Q(g, o)  == o[1] * o[1] * g[3] - 2 * o[1] * o[2] * g[2] + o[2] * o[2] * g[1]
Det(g)   == g[1] * g[3] - g[2] * g[2]
Values(g, os) == {Q(g, os[i]) : i \in 1..Len(os)}
Members(g, os, q) == {i \in 1..Len(os) : Q(g, os[i]) = q}
\* length of the in-plane wavevector for a lattice unit u (in units of 1e-6): 2 pi sqrt(Q/det) / u
KLen(g, q) == Mul(TwoPi, Sqrt(Div(q, Det(g))))
=============================================================================

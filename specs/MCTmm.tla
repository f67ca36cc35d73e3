------------------------------ MODULE MCTmm ------------------------------
(* Design check of Tmm: every stack of up to MaxL layers over a set of media,  *)
(* polarisations and incidence directions.                                     *)
EXTENDS Tmm
CONSTANTS MaxL, Coarse
VARIABLES med, pol, kx
vars == <<med, pol, kx>>
M(n, k, d, inc) == [n |-> <<n, k>>, d |-> d, inc |-> inc]
Layers == IF Coarse
          THEN {M(1500000, 0, 166667, FALSE), M(2000000, 300000, 100000, FALSE), M(500000, 3000000, 20000, FALSE), M(1800000, 200, 7300000, TRUE)}
          ELSE {M(1500000, 0, 166667, FALSE), M(2000000, 300000, 100000, FALSE), M(3500000, 0, 71429, FALSE), M(500000, 3000000, 20000, FALSE),
                M(1800000, 200, 7300000, TRUE), M(2400000, 0, 3000000, TRUE), M(2000000, 300000, 0, FALSE)}
Ins  == {M(1000000, 0, 0, FALSE), M(1500000, 0, 0, FALSE)}
Outs == {M(1000000, 0, 0, FALSE), M(3500000, 0, 0, FALSE), M(1200000, 2000000, 0, FALSE)}
\* stacks are built from the entrance downwards, layer by layer; every intermediate stack is a state of its own
Init == \E a \in Ins, b \in Outs, th \in {0, 500000, 900000} :
          /\ med = <<a, b>> /\ kx = Mul(a.n[1], th) /\ pol \in {"s", "p"}
Next == /\ Len(med) < MaxL + 2
        /\ \E l \in Layers : med' = <<med[1], l>> \o SubSeq(med, 2, Len(med))
        /\ UNCHANGED <<pol, kx>>
Res == TLCEval(Result(med, pol, kx))
Tol == 60
Good == LET r == Res IN
        /\ Near(Sum(r.A) + r.R + r.T, S, Tol)
        /\ \A x \in {r.R, r.T} \cup {r.A[j] : j \in DOMAIN r.A} : x >= -Tol /\ x <= S + Tol
        /\ \A j \in DOMAIN r.A : (med[j + 1].n[2] = 0 \/ med[j + 1].d = 0) => Abs(r.A[j]) <= Tol
\* dividing any coherent layer in two, or inserting a layer of no thickness, changes nothing
SplitAt(j) == SubSeq(med, 1, j - 1) \o <<[med[j] EXCEPT !.d = @ \div 3], [med[j] EXCEPT !.d = @ - @ \div 3]>> \o SubSeq(med, j + 1, Len(med))
Splitting == LET r == Res IN \A j \in 2..(Len(med) - 1) : ~med[j].inc =>
             LET q == TLCEval(Result(SplitAt(j), pol, kx)) IN
             Near(q.R, r.R, Tol) /\ Near(q.T, r.T, Tol) /\ Near(q.A[j - 1] + q.A[j], r.A[j - 1], Tol)
Inserting == LET r == Res IN \A j \in 2..Len(med) :
             LET q == TLCEval(Result(SubSeq(med, 1, j - 1) \o <<M(2200000, 400000, 0, FALSE)>> \o SubSeq(med, j, Len(med)), pol, kx)) IN
             Near(q.R, r.R, Tol) /\ Near(q.T, r.T, Tol) /\ Abs(q.A[j - 1]) <= Tol
\* light through the stack from the other end, at the angle it would leave: the same transmission
Lossless(m) == m.n[2] = 0
Reciprocal == (Lossless(med[Len(med)]) /\ kx < med[Len(med)].n[1] - 100000 /\ kx < med[1].n[1] - 100000) =>
              Near(Result(Rev(med), pol, kx).T, Res.T, IF \E j \in 1..Len(med) : med[j].inc THEN 500 ELSE Tol)
\* normal incidence: both polarisations coincide; single lossless interface: Fresnel at normal incidence; no contrast: no reflection
Normal == kx = 0 => LET a == Stack(med, "s", 0)  b == Stack(med, "p", 0) IN Near(a.R, b.R, Tol) /\ Near(a.T, b.T, Tol)
Fresnel == (Len(med) - 2 = 0 /\ kx = 0 /\ Lossless(med[2])) =>
           LET q == Div(Sub(med[2].n[1], med[1].n[1]), Add(med[2].n[1], med[1].n[1])) IN Near(Res.R, Mul(q, q), 5)
Tir == (\A j \in 1..Len(med) : Lossless(med[j])) /\ kx > med[Len(med)].n[1] => Near(Res.R, S, Tol) /\ Near(Res.T, 0, Tol)
\* film of a quarter wave and n = sqrt(n0 ns): no reflection; single film: Airy formula
Airy == (Len(med) - 2 = 1 /\ kx = 0 /\ Lossless(med[2]) /\ ~med[2].inc /\ Lossless(med[3]) /\ pol = "s") =>
        LET r1 == Div(Sub(med[1].n[1], med[2].n[1]), Add(med[1].n[1], med[2].n[1]))
            r2 == Div(Sub(med[2].n[1], med[3].n[1]), Add(med[2].n[1], med[3].n[1]))
            c  == Cos(2 * Mul(TwoPi, Mul(med[2].n[1], med[2].d)))
            x  == 2 * Mul(Mul(r1, r2), c)
        IN Near(Res.R, Div(Add(Mul(r1, r1), Add(Mul(r2, r2), x)), Add(S, Add(Mul(Mul(r1, r1), Mul(r2, r2)), x))), Tol)
=============================================================================

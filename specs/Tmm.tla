------------------------------- MODULE Tmm -------------------------------
(* Light in a stack of plane layers: the meaning of a multilayer calculation.  *)
(* A medium is [n |-> <<n, k>>, d |-> thickness / wavelength, inc |-> whether   *)
(* light loses its phase in it]; the first and last are the half spaces.       *)
(* Written from Maxwell's equations as a recursion of reflection coefficients  *)
(* upwards and amplitudes downwards with transverse admittances - not with the *)
(* transfer matrices the code uses.                                            *)
EXTENDS FixedPoint, TLC

One == <<S, 0>>
\* normal component of the wave vector (vacuum units) and transverse admittance
Kz(n, kx) == CSqrt(CSub(CMul(n, n), <<Mul(kx, kx), 0>>))
Adm(n, kz, pol) == IF pol = "s" THEN kz ELSE CDiv(CMul(n, n), kz)
\* e^(i 2 pi d kz)
Phase(kz, d) == LET x == Mul(TwoPi, d)  a == Mul(x, kz[1])  b == ExpNeg(Mul(x, kz[2]))  sc == SinCos(a)
                IN <<Mul(b, sc[2]), Mul(b, sc[1])>>
RIJ(a, b) == CDiv(CSub(a, b), CAdd(a, b))                       \* single interface, from admittances
TIJ(a, b) == CDiv(CAdd(a, a), CAdd(a, b))

(* Coherent stack: med[1] incident, med[N] exit medium. Returns reflectance, transmittance, absorption of media 2..N-1 *)
Coh(med, pol, kx) ==
  LET N   == Len(med)
      kz  == TLCEval([j \in 1..N |-> Kz(IF j = 1 THEN <<med[1].n[1], 0>> ELSE med[j].n, kx)])
      Y   == TLCEval([j \in 1..N |-> Adm(IF j = 1 THEN <<med[1].n[1], 0>> ELSE med[j].n, kz[j], pol)])
      ph  == TLCEval([j \in 1..N |-> IF j = 1 \/ j = N THEN One ELSE Phase(kz[j], med[j].d)])
      ri  == TLCEval([j \in 1..(N - 1) |-> RIJ(Y[j], Y[j + 1])])
      \* rt[j]: reflection coefficient seen at the top of medium j, built from the exit medium upwards
      rt  == TLCEval(FoldLeft(LAMBDA acc, k :
                       LET j == N - k
                           r == CDiv(CAdd(ri[j], Head(acc)), CAdd(One, CMul(ri[j], Head(acc))))
                       IN <<CMul(r, CMul(ph[j], ph[j]))>> \o acc, <<<<0, 0>>>>, [k \in 1..(N - 1) |-> k]))
      \* ep[j]: amplitude of the forward wave at the top of medium j
      ep  == TLCEval(FoldLeft(LAMBDA acc, k :
                       acc \o <<CMul(CMul(acc[k], ph[k]),
                                     CDiv(TIJ(Y[k], Y[k + 1]), CAdd(One, CMul(ri[k], rt[k + 1]))))>>,
                       <<One>>, [k \in 1..(N - 1) |-> k]))
      fl  == TLCEval([j \in 1..N |-> IF j = 1 THEN Sub(S, Abs2(rt[1]))
                ELSE Div(Mul(CMul(Y[j], CMul(CSub(One, rt[j]), CConj(CAdd(One, rt[j]))))[1], Abs2(ep[j])), Y[1][1])])
  IN [R |-> Abs2(rt[1]), T |-> fl[N], A |-> [j \in 1..(N - 2) |-> Sub(fl[j + 1], fl[j + 2])], net |-> fl[2]]

(* Stack with incoherent layers: intensities are added between them. *)
IncPos(med) == SelectSeq([j \in 1..Len(med) |-> j], LAMBDA j : j = 1 \/ j = Len(med) \/ med[j].inc)
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Stack(med, pol, kx) ==
  LET p == IncPos(med)
      G == Len(p) - 1                                          \* coherent groups between incoherent media
  IN IF G = 1 THEN Coh(med, pol, kx) ELSE
  LET dn == TLCEval([g \in 1..G |-> Coh(SubSeq(med, p[g], p[g + 1]), pol, kx)])
      up == TLCEval([g \in 1..(G - 1) |-> Coh(Rev(SubSeq(med, p[g], p[g + 1])), pol, kx)])
      P  == TLCEval([g \in 1..G |-> IF g = 1 THEN S ELSE ExpNeg(2 * Mul(Mul(TwoPi, med[p[g]].d), Kz(med[p[g]].n, kx)[2]))])
      \* refl[g]: reflectance for light arriving at group g from above;  refl[g] needs group g + 1
      refl == TLCEval(FoldLeft(LAMBDA acc, k :
                LET g == G - k
                    b == Mul(Mul(P[g + 1], P[g + 1]), Head(acc))
                IN <<Add(dn[g].R, Div(Mul(Mul(dn[g].T, b), up[g].T), Sub(S, Mul(up[g].R, b))))>> \o acc,
                <<dn[G].R>>, [k \in 1..(G - 1) |-> k]))
      \* I[g]: intensity arriving at group g from above
      I == TLCEval(FoldLeft(LAMBDA acc, g :
                acc \o <<Mul(P[g + 1], Div(Mul(acc[g], dn[g].T), Sub(S, Mul(up[g].R, Mul(Mul(P[g + 1], P[g + 1]), refl[g + 1])))))>>,
                <<S>>, [g \in 1..(G - 1) |-> g]))
      \* U[g]: intensity arriving at group g from below
      U == TLCEval([g \in 1..G |-> IF g = G THEN 0 ELSE Mul(P[g + 1], Mul(I[g + 1], refl[g + 1]))])
      grp(j) == CHOOSE g \in 1..G : p[g] < j /\ j < p[g + 1]
      idx(j) == CHOOSE g \in 1..G : p[g] = j                  \* j incoherent layer below group g - 1
      Atop(g) == Add(Mul(I[g - 1], dn[g - 1].T), Mul(U[g - 1], up[g - 1].R))    \* downward intensity at its top
      A(j) == IF med[j].inc
              THEN LET g == idx(j) IN Mul(Sub(S, P[g]), Add(Atop(g), Mul(I[g], refl[g])))
              ELSE LET g == grp(j) IN
                   Add(Mul(I[g], dn[g].A[j - p[g]]), IF g = G THEN 0 ELSE Mul(U[g], up[g].A[p[g + 1] - j]))
  IN [R |-> refl[1], T |-> Mul(I[G], dn[G].T), A |-> [j \in 1..(Len(med) - 2) |-> A(j + 1)], net |-> Sub(S, refl[1])]

Mean(a, b) == RDiv(Add(a, b), 2)
Result(med, pol, kx) ==
  IF pol # "u" THEN Stack(med, pol, kx)
  ELSE LET s == TLCEval(Stack(med, "s", kx))  q == TLCEval(Stack(med, "p", kx))
       IN [R |-> Mean(s.R, q.R), T |-> Mean(s.T, q.T), A |-> [j \in DOMAIN s.A |-> Mean(s.A[j], q.A[j])], net |-> Mean(s.net, q.net)]
=============================================================================

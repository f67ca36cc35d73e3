------------------------------ MODULE TmmField ------------------------------
(* Absorption density inside a stack of plane layers.                          *)
EXTENDS Tmm

\* positions of the field are measured in wavelengths from the top of the layer; density per wavelength
FieldAt(med, pol, kx, j, z) ==
  LET N   == Len(med)
      kz  == TLCEval([i \in 1..N |-> Kz(IF i = 1 THEN <<med[1].n[1], 0>> ELSE med[i].n, kx)])
      Y   == TLCEval([i \in 1..N |-> Adm(IF i = 1 THEN <<med[1].n[1], 0>> ELSE med[i].n, kz[i], pol)])
      ph  == TLCEval([i \in 1..N |-> IF i = 1 \/ i = N THEN One ELSE Phase(kz[i], med[i].d)])
      ri  == TLCEval([i \in 1..(N - 1) |-> RIJ(Y[i], Y[i + 1])])
      rb  == TLCEval(FoldLeft(LAMBDA acc, k :
                       LET i == N - k  below == CMul(Head(acc), CMul(ph[i + 1], ph[i + 1]))
                       IN <<CDiv(CAdd(ri[i], below), CAdd(One, CMul(ri[i], below)))>> \o acc, <<<<0, 0>>>>, [k \in 1..(N - 1) |-> k]))
      rt  == TLCEval([i \in 1..N |-> CMul(rb[i], CMul(ph[i], ph[i]))])
      ep  == TLCEval(FoldLeft(LAMBDA acc, k :
                       acc \o <<CMul(CMul(acc[k], ph[k]), CDiv(TIJ(Y[k], Y[k + 1]), CAdd(One, CMul(ri[k], rt[k + 1]))))>>,
                       <<One>>, [k \in 1..(j - 1) |-> k]))
      dens(x) == LET f == CMul(ep[j], Phase(kz[j], x))
                     b == CMul(CMul(CMul(ep[j], ph[j]), rb[j]), Phase(kz[j], Sub(med[j].d, x)))
                     t == Abs2(CAdd(f, b))
                     n == IF pol = "s" THEN 0 ELSE Abs2(CMul(CDiv(<<kx, 0>>, kz[j]), CSub(f, b)))
                 IN Div(Mul(Mul(TwoPi, 2 * Mul(med[j].n[1], med[j].n[2])), Add(t, n)), Y[1][1])
  IN [i \in DOMAIN z |-> dens(z[i])]
DensAt(med, pol, kx, j, z) ==
  IF pol # "u" THEN FieldAt(med, pol, kx, j, z)
  ELSE LET s == TLCEval(FieldAt(med, "s", kx, j, z))  p == TLCEval(FieldAt(med, "p", kx, j, z)) IN [i \in DOMAIN z |-> Mean(s[i], p[i])]
\* trapezium rule over n samples at distance h, the first z0 h below the top and the last z1 h above the bottom of the layer; the
\* ends taken from the nearest sample and its slope. hk is 1000 h
Integral(v, hk, z0, z1) ==
  LET n == Len(v)
      end(z, a, b) == Add(Mul(z, v[a]), IF n = 1 THEN 0 ELSE RDiv(Mul(Mul(z, z), Sub(v[a], v[b])), 2))
  IN RDiv(Mul(hk, Sum(<<Sub(Sum(v), RDiv(Add(v[1], v[n]), 2)), end(z0, 1, 2), end(z1, n, n - 1)>>)), 1000)
=============================================================================

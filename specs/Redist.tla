------------------------------- MODULE Redist -------------------------------
(* Redistribution at one surface: light arriving in one angular channel is     *)
(* reflected and transmitted into channels and absorbed in layers.             *)
(* Channels are those of module Channels: the polar bins 0..n-1 face the       *)
(* incidence medium of the structure (front), n..2n-1 the other side.          *)
EXTENDS Channels, Tmm

\* polar bin of a channel counted from the normal of the side it is on, and the bin with that number on a side
FromNormal(d, t) == IF t < d.n THEN t ELSE 2 * d.n - 1 - t
OnSide(d, q, front) == IF front THEN q ELSE 2 * d.n - 1 - q
IsFront(d, c) == c < NIn(d)
\* sine of the polar edges q = 0..n from the normal, and of the angle in the middle of bin q
EdgeSin(d, q) == IF q = d.n THEN S ELSE IF d.lin THEN Sin(RDiv(1570796 * q, d.n)) ELSE RDiv(S * q, d.n)
\* bins (from the normal) containing the direction with this sine; beyond the horizon none
SinBins(d, s) == {q \in 0..(d.n - 1) : s >= EdgeSin(d, q) - 20 /\ s <= EdgeSin(d, q + 1) + 20}
\* channels of one side in bins q with the azimuth (num / den, in periods)
Toward(d, qs, front, num, den) ==
  UNION {{Chan(d, OnSide(d, q, front), j) : j \in AzIn(num, den, NPhi(d, OnSide(d, q, front)))} : q \in qs}
\* a wave from channel c goes on with azimuth + pi: position of that azimuth in units of period / (2 m)
OutAz(d, c) == LET r == Table(d)[c + 1] IN <<2 * r[2] + 1 + d.k * r[3], 2 * r[3]>>

(* plane surface: from the centre of channel c, at an angle of sine si in a medium of (real) index n1, to one of index n2.   *)
(* Beyond the critical angle nothing propagates; what an absorbing medium still takes up goes into its most grazing channels *)
Reflected(d, c) == Specular(d, c)
Refracted(d, c, si, n1, n2) ==
  LET x == Div(Mul(n1, si), n2)  a == OutAz(d, c)
      qs == IF Ok(x) /\ x <= S + 20 THEN SinBins(d, IF x > S THEN S ELSE x) ELSE {d.n - 1}
  IN Toward(d, qs, ~IsFront(d, c), a[1], a[2])
\* what the plane surface does to unit power: R, T, absorbed per layer (in the order light meets them)
Planar(med, pol, kx) == Result(med, pol, kx)

(* Lambertian scattering: the same radiance in all directions of the hemisphere *)
LambertShare(d, c) ==
  LET t == Table(d)[c + 1]  q == FromNormal(d, t[1])  a == EdgeSin(d, q)  b == EdgeSin(d, q + 1)
  IN RDiv(Sub(Mul(b, b), Mul(a, a)), t[3])

\* light from one direction only: the channels it may be in
OneDirection(d, theta, num, den) == LaunchSet(d, theta, num, den)
=============================================================================

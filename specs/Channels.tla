------------------------------ MODULE Channels ------------------------------
(* Angular channels of the matrix method.  A discretisation d is a record     *)
(*   n       polar bins per hemisphere                                        *)
(*   cp, cq  azimuthal fineness c = cp/cq                                     *)
(*   k       azimuthal period 2 pi / k                                        *)
(*   lin     polar edges linear in the angle (TRUE) or in its sine (FALSE)    *)
(* Channels are numbered from 0: polar bins 0..2n-1 from the upward normal to *)
(* the downward one, within each polar bin by azimuth.  Azimuths are measured *)
(* exactly, as fractions of the period.                                       *)
EXTENDS FixedPoint

Ring(d, t)  == IF t < d.n THEN t + 1 ELSE 2 * d.n - t
CeilDiv(a, b) == (a + b - 1) \div b
NPhi(d, t)  == CeilDiv(d.cp * Ring(d, t), d.cq)
RECURSIVE Offset(_, _)
Offset(d, t) == IF t = 0 THEN 0 ELSE Offset(d, t - 1) + NPhi(d, t - 1)
NAll(d)     == Offset(d, 2 * d.n)
NIn(d)      == Offset(d, d.n)
Channels(d) == 0..(NAll(d) - 1)
\* <<polar bin, azimuth index, azimuth bins of that polar bin>> of every channel, in order
Table(d) == FlattenSeq([t \in 1..(2 * d.n) |-> [j \in 1..NPhi(d, t - 1) |-> <<t - 1, j - 1, NPhi(d, t - 1)>>]])
Chan(d, t, j) == Offset(d, t) + j

\* azimuth indices (of m) that contain the azimuth num/den (in periods); two on an edge
AzIn(num, den, m) == LET x == (num % den) * m  IN
                     IF x % den = 0 THEN {(x \div den) % m, (x \div den + m - 1) % m} ELSE {x \div den}

\* handing over: propagation direction -> direction the light comes from, at the next surface:
\* polar angle mirrored, azimuth turned by half a turn
Mirror(d, t) == 2 * d.n - 1 - t
HandOver(d, c) ==
  LET r == Table(d)[c + 1]  m == r[3]
      pos == (2 * r[2] + 1 + d.k * m)                    \* azimuth of the centre + pi, in units of period/(2m)
  IN {Chan(d, Mirror(d, r[1]), j) : j \in AzIn(pos, 2 * m, m)}
\* the mirror image of a channel in a specular reflection (same hemisphere, azimuth turned by half a turn)
Specular(d, c) ==
  LET r == Table(d)[c + 1]  m == r[3]  pos == (2 * r[2] + 1 + d.k * m)
  IN {Chan(d, r[1], j) : j \in AzIn(pos, 2 * m, m)}

\* polar bins of the first hemisphere containing an angle (two on an edge)
PolarBins(d, theta) ==
  IF d.lin THEN {t \in 0..(d.n - 1) : theta >= RDiv(1570796 * t, d.n) - 3 /\ theta <= RDiv(1570796 * (t + 1), d.n) + 3}
  ELSE LET s == Sin(theta) IN {t \in 0..(d.n - 1) : s >= RDiv(S * t, d.n) - 3 /\ s <= RDiv(S * (t + 1), d.n) + 3}
\* channels containing an incidence direction
LaunchSet(d, theta, num, den) ==
  UNION {{Chan(d, t, j) : j \in AzIn(num, den, NPhi(d, t))} : t \in PolarBins(d, theta)}
\* the groups of channels over which light from all azimuths is spread
AllAz(d, theta) == {{Chan(d, t, j) : j \in 0..(NPhi(d, t) - 1)} : t \in PolarBins(d, theta)}
=============================================================================

---------------------------- MODULE ChannelTrace ----------------------------
(* Conformance of the real channel tables, launches and hand-overs with       *)
(* Channels.  Event kinds:                                                    *)
(*  table    edges of polar and azimuthal bins and the list of channels       *)
(*  launch   power per channel right after the front surface was met, for a   *)
(*           group of equivalent incidence azimuths                           *)
(*  hand     where each outgoing channel's power arrives at the next surface  *)
(*  spec     where specular reflection (and straight transmission) sends each *)
(*           incidence channel                                                *)
EXTENDS Channels, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Period(d) == RDiv(TwoPi, d.k)
TableClauses(e) ==
  LET d == e.d  T == Table(d)  n == d.n  E == e.edges IN
  IF Len(E) # 2 * n + 1 \/ Len(e.phis) # 2 * n \/ Len(e.rows) # NAll(d) THEN {"number of bins"} ELSE
  Chk("first and last polar edge", Near(E[1], 0, 2) /\ Near(E[2 * n + 1], PI, 2))
  \cup Chk("polar edges increase", \A i \in 1..(2 * n) : E[i] < E[i + 1])
  \cup Chk("polar edges mirror symmetric", \A i \in 1..(2 * n + 1) : Near(E[i] + E[2 * n + 2 - i], PI, 4))
  \cup Chk("horizon is an edge", Near(E[n + 1], 1570796, 3))
  \cup Chk("polar edges spaced as requested", \A i \in 0..n :
           IF d.lin THEN Near(E[i + 1], RDiv(1570796 * i, n), 3) ELSE Near(Sin(E[i + 1]), RDiv(S * i, n), 5))
  \cup Chk("azimuth bins per polar bin", \A t \in 0..(2 * n - 1) : Len(e.phis[t + 1]) = NPhi(d, t) + 1)
  \cup Chk("azimuth bins cover the period once", \A t \in 0..(2 * n - 1) :
           LET p == e.phis[t + 1]  m == Len(p) - 1 IN \A j \in 0..m : Near(p[j + 1], RDiv(Period(d) * j, m), 4))
  \cup Chk("channels listed by polar bin and azimuth, with their centres inside", \A c \in Channels(d) :
           LET r == e.rows[c + 1]  t == T[c + 1][1]  j == T[c + 1][2] IN
           /\ r[1] = t * S
           /\ Near(2 * r[2], E[t + 1] + E[t + 2], 5)
           /\ j + 2 <= Len(e.phis[t + 1])
           /\ Near(2 * r[3], e.phis[t + 1][j + 1] + e.phis[t + 1][j + 2], 5))

\* one-hot channel vectors are recorded as <<channel, power>> pairs of the populated channels
LaunchClauses(e) ==
  LET d == e.d IN
  Chk("all launched light is in a channel containing its direction", \A i \in 1..Len(e.az) :
      LET p == e.power[i] IN
      /\ Len(p) = 1 /\ Near(p[1][2], S, 2)
      /\ p[1][1] \in LaunchSet(d, e.theta, e.az[i][1], e.az[i][2]))
  \cup Chk("equivalent azimuths are launched into the same channel", \A i \in 1..Len(e.az) : e.power[i] = e.power[1])
SpreadClauses(e) ==
  LET d == e.d  p == e.power[1]  cs == {p[i][1] : i \in 1..Len(p)} IN
  Chk("light from all azimuths is spread evenly over its polar bin",
      cs \in AllAz(d, e.theta) /\ \A i \in 1..Len(p) : Near(p[i][2], RDiv(S, Len(p)), 3))
HandClauses(e) ==
  LET d == e.d IN
  Chk("hand-over is onto exactly one channel", \A i \in 1..Len(e.map) : Len(e.map[i][2]) = 1 /\ Near(e.map[i][2][1][2], S, 2))
  \cup Chk("hand-over goes to the mirrored polar bin and opposite azimuth",
           \A i \in 1..Len(e.map) : \A j \in 1..Len(e.map[i][2]) : e.map[i][2][j][1] \in HandOver(d, e.map[i][1]))
  \cup Chk("every channel is handed over", {e.map[i][1] : i \in 1..Len(e.map)} = {c \in Channels(d) : (c < NIn(d)) = e.up})
\* mirror / planar surfaces: reflection into the specular channel of the same hemisphere, and transmission (same refractive
\* index on both sides) straight on: the opposite of the mirrored channel
SpecClauses(e) ==
  LET d == e.d IN
  Chk("every incidence channel is populated", {e.map[i][1] : i \in 1..Len(e.map)} = {c \in Channels(d) : (c < NIn(d)) = e.front})
  \cup Chk("specular reflection", \A i \in 1..Len(e.map) : \A j \in 1..Len(e.map[i][2]) :
           LET t == e.map[i][2][j] IN
           (t[1] < NIn(d)) = e.front => t[1] \in Specular(d, e.map[i][1]))
  \cup Chk("straight transmission", \A i \in 1..Len(e.map) : \A j \in 1..Len(e.map[i][2]) :
           LET t == e.map[i][2][j] IN
           (t[1] < NIn(d)) # e.front => t[1] \in HandOver(d, e.map[i][1]))
  \cup Chk("power kept", \A i \in 1..Len(e.map) :
           Near(Sum([j \in 1..Len(e.map[i][2]) |-> e.map[i][2][j][2]]), S, 5))

\* folding: az[i] (in periods) folded to fold[i]
FoldClauses(e) ==
  LET P == Period(e.d) IN
  Chk("folded azimuth is the equivalent angle inside the symmetry element", \A i \in 1..Len(e.az) :
      LET a == e.az[i][1] % e.az[i][2]  x == RDiv(Mul(P, Div(a, e.az[i][2])), 1)
      IN Ok(e.fold[i]) /\ e.fold[i] >= 0 /\ e.fold[i] <= P + 1 /\ (Near(e.fold[i], x, 8) \/ (a = 0 /\ Near(e.fold[i], P, 8))))
\* complete results (R, T, bulk and interface absorption per wavelength) for equivalent azimuths; az may be a representative
EquivClauses(e) ==
  Chk("equivalent azimuths give the same results", \A i \in 1..Len(e.res) :
      Len(e.res[i]) = Len(e.res[1]) /\ \A k \in 1..Len(e.res[1]) : Near(e.res[i][k], e.res[1][k], e.tol))
  \cup Chk("launched light is accounted for", \A i \in 1..Len(e.tot) : \A k \in 1..Len(e.tot[i]) :
      e.tot[i][k] <= S + 5 /\ e.tot[i][k] >= S - e.left)
\* light from all azimuths = average over the azimuthal channels of its polar bin
AvgClauses(e) ==
  LET m == Len(e.res) IN
  Chk("result for all azimuths is the average over the azimuthal channels", \A k \in 1..Len(e.all) :
      Near(e.all[k], RDiv(Sum([i \in 1..m |-> RDiv(e.res[i][k], 1)]), m), e.tol))

Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.kind = "table" -> TableClauses(e)
    [] e.kind = "launch" -> LaunchClauses(e)
    [] e.kind = "spread" -> SpreadClauses(e)
    [] e.kind = "hand" -> HandClauses(e)
    [] e.kind = "spec" -> SpecClauses(e)
    [] e.kind = "fold" -> FoldClauses(e)
    [] e.kind = "equiv" -> EquivClauses(e)
    [] e.kind = "avg" -> AvgClauses(e)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

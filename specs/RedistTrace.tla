----------------------------- MODULE RedistTrace -----------------------------
(* Conformance of stored redistribution matrices with Redist. One event is one *)
(* surface seen from one side at one wavelength; e.cols[j] is the column of    *)
(* incidence channel j - 1 (+ NIn for light from the other side):              *)
(*   out   populated entries <<channel, power>>     A  absorption per layer    *)
(*   pop   "full" | "empty" | "either"                                         *)
(* A whole profile matrix is one event of kind "prof".                         *)
EXTENDS Redist, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Cols(e) == 1..Len(e.cols)
ChanOf(e, j) == j - 1 + (IF e.front THEN 0 ELSE NIn(e.d))
Power(q) == Sum([i \in 1..Len(q.out) |-> q.out[i][2]])
Abs1(q) == Sum(q.A)
Empty(q) == q.out = <<>> /\ \A i \in DOMAIN q.A : q.A[i] = 0
Refl(e, q) == Sum([i \in 1..Len(q.out) |-> IF IsFront(e.d, q.out[i][1]) = e.front THEN q.out[i][2] ELSE 0])
Trns(e, q) == Sum([i \in 1..Len(q.out) |-> IF IsFront(e.d, q.out[i][1]) # e.front THEN q.out[i][2] ELSE 0])

General(e) ==
  IF Len(e.cols) # NIn(e.d) \/ e.rows # NAll(e.d) \/ \E j \in Cols(e) : Len(e.cols[j].A) # e.layers THEN {"shape of the matrices"} ELSE
  Chk("entries defined and within [0, 1]", \A j \in Cols(e) :
      /\ \A i \in 1..Len(e.cols[j].out) : LET x == e.cols[j].out[i][2] IN Ok(x) /\ x >= 0 /\ x <= S + 2
      /\ \A i \in DOMAIN e.cols[j].A : LET x == e.cols[j].A[i] IN Ok(x) /\ x >= 0 /\ x <= S + 2)
  \cup Chk("power of every populated channel is conserved", \A j \in Cols(e) :
      LET q == e.cols[j] IN q.pop = "empty" \/ (q.pop = "either" /\ Empty(q)) \/ Near(Add(Power(q), Abs1(q)), S, e.stol))
  \cup Chk("channels that were not simulated are zero", \A j \in Cols(e) : e.cols[j].pop = "empty" => Empty(e.cols[j]))

\* which channels are populated when only the incidence direction is simulated
Only(e) ==
  LET pop == {ChanOf(e, j) : j \in {j \in Cols(e) : ~Empty(e.cols[j])}} IN
  IF e.only.all THEN Chk("exactly the channels of the incidence angle are simulated", pop \in AllAz(e.d, e.only.theta))
  ELSE Chk("exactly the channel of the incidence direction is simulated", Cardinality(pop) = 1 /\ pop \subseteq OneDirection(e.d, e.only.theta, e.only.num, e.only.den))
\* light is launched from the first e.launched channels, in order
FirstChannels(e) ==
  Chk("channels that were simulated are populated", \A i \in 0..(e.launched - 1) :
      LET c == IF e.front THEN i ELSE LET r == Table(e.d)[i + 1] IN Chan(e.d, Mirror(e.d, r[1]), r[2])
      IN ~Empty(e.cols[c + 1 - (IF e.front THEN 0 ELSE NIn(e.d))]))
  \cup Chk("channels that were not simulated are zero", Cardinality({j \in Cols(e) : ~Empty(e.cols[j])}) <= e.launched)

Plane(e) ==
  Chk("reflection is specular", \A j \in Cols(e) : \A i \in 1..Len(e.cols[j].out) :
      LET o == e.cols[j].out[i][1] IN IsFront(e.d, o) = e.front => o \in Reflected(e.d, ChanOf(e, j)))
  \cup Chk("transmission follows Snell's law", \A j \in Cols(e) : \A i \in 1..Len(e.cols[j].out) :
      LET q == e.cols[j]  o == q.out[i][1] IN IsFront(e.d, o) # e.front => o \in Refracted(e.d, ChanOf(e, j), q.si, e.n1, e.n2))
\* the probabilities of the multilayer; x.L lists its layers in the order light meets them, the matrix from the front
Oracle(e) ==
  LET bad(j) == LET q == e.cols[j] IN
        IF ~q.oracle \/ Empty(q) THEN FALSE ELSE
        LET r == TLCEval(Planar(q.med, e.pol, q.kx))  L == e.layers
            At(i) == IF e.front THEN r.A[i] ELSE r.A[L + 1 - i]
            t == q.tol
            tot == Sum(r.A)
        IN ~(/\ Near(Refl(e, q), r.R, t) /\ Near(Trns(e, q), r.T, t)
             /\ IF e.ratio THEN Near(Abs1(q), tot, t) /\ \A i \in 1..L : Near(Mul(q.A[i], tot), Mul(At(i), Abs1(q)), 2000)
                ELSE \A i \in 1..L : Near(q.A[i], At(i), t))
      n == {j \in Cols(e) : bad(j)}
  IN Chk("probabilities agree with the multilayer specification", n = {})

Ideal(e) ==
  IF e.what = "mirror"
  THEN Chk("a perfect mirror reflects everything into the specular channel", \A j \in Cols(e) :
           LET q == e.cols[j] IN Len(q.out) = 1 /\ q.out[1][2] = S /\ q.out[1][1] \in Reflected(e.d, ChanOf(e, j)) /\ Abs1(q) = 0)
  ELSE Chk("Lambertian scattering has the same radiance in every direction", \A j \in Cols(e) :
           LET q == e.cols[j] IN /\ Len(q.out) = NIn(e.d)
                                 /\ \A i \in 1..Len(q.out) : IsFront(e.d, q.out[i][1]) /\ Near(q.out[i][2], LambertShare(e.d, q.out[i][1]), 5)
                                 /\ Abs1(q) = 0)

(* gratings: orders m1, m2 of the reciprocal vectors g1, g2 (lengths in vacuum wave vectors) *)
\* is the direction <<x, y>> inside azimuth bin j of m (any of the k equivalent ones)?
Cross2(a, b) == Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))
InAz(d, m, j, v, tol) ==
  \E r \in 0..(d.k - 1) :
    LET w == d.k * m
        a == SinCos(RDiv(TwoPi * (j + r * m), w))  b == SinCos(RDiv(TwoPi * (j + 1 + r * m), w))
        ea == <<a[2], a[1]>>  eb == <<b[2], b[1]>>
    IN IF w = 1 THEN TRUE
       ELSE IF w = 2 THEN Cross2(ea, v) >= -tol
       ELSE Cross2(ea, v) >= -tol /\ Cross2(v, eb) >= -tol /\ Add(Mul(v[1], Add(ea[1], eb[1])), Mul(v[2], Add(ea[2], eb[2]))) >= -tol
\* a channel is reachable if some order travels in its direction; kin is the in-plane wave vector of the incident wave (propagation)
Reaches(e, q, c) ==
  LET r == Table(e.d)[c + 1]  n == IF IsFront(e.d, c) = e.front THEN e.n1 ELSE e.n2  p == FromNormal(e.d, r[1]) IN
  \E m1 \in (-e.M)..e.M, m2 \in (-e.M)..e.M :
    LET k == <<Add(q.kin[1], Add(m1 * e.g1[1], m2 * e.g2[1])), Add(q.kin[2], Add(m1 * e.g1[2], m2 * e.g2[2]))>>
        s == Div(Sqrt(Abs2(k)), n)
    IN Ok(s) /\ s <= S + 20 /\ p \in SinBins(e.d, IF s > S THEN S ELSE s) /\ (s < 30 \/ InAz(e.d, r[3], r[2], k, 30))
Grating(e) ==
  Chk("diffracted light goes where the grating equation sends it", \A j \in Cols(e) : \A i \in 1..Len(e.cols[j].out) :
      e.cols[j].out[i][2] < 5 \/ Reaches(e, e.cols[j], e.cols[j].out[i][1]))

(* profile matrices: per column the samples of every layer, from the front; A the stored absorption of these layers *)
Integral(v, hk, z0, z1) ==
  LET n == Len(v)
      end(z, a, b) == Add(Mul(z, v[a]), IF n = 1 THEN 0 ELSE RDiv(Mul(Mul(z, z), Sub(v[a], v[b])), 2))
  IN RDiv(Mul(hk, Sum(<<Sub(Sum(v), RDiv(Add(v[1], v[n]), 2)), end(z0, 1, 2), end(z1, n, n - 1)>>)), 1000)
Prof(e) ==
  IF \E j \in DOMAIN e.prof : Len(e.prof[j].v) # Len(e.want) THEN {"shape of the profile matrix"} ELSE
  Chk("profile defined and never negative", \A j \in DOMAIN e.prof : \A i \in DOMAIN e.prof[j].v : \A x \in DOMAIN e.prof[j].v[i] :
      Ok(e.prof[j].v[i][x]) /\ e.prof[j].v[i][x] >= 0)
  \cup Chk("depth profile of every channel integrates to the absorption of its layers", \A j \in DOMAIN e.prof :
      \A i \in DOMAIN e.prof[j].v : Near(Integral(e.prof[j].v[i], e.hk, e.z0, e.z1), e.prof[j].A[i], e.prof[j].tol[i]))

Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  IF e.kind = "prof" THEN Prof(e) ELSE
  LET g == General(e) IN IF "shape of the matrices" \in g THEN g ELSE
  g \cup (IF e.only.on THEN Only(e) ELSE {}) \cup (IF e.launched >= 0 THEN FirstChannels(e) ELSE {})
    \cup (CASE e.what = "planar" -> Plane(e) \cup Oracle(e)
            [] e.what \in {"mirror", "lambert"} -> Ideal(e)
            [] e.what = "grating" -> Grating(e)
            [] OTHER -> {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

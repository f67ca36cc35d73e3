---------------------------- MODULE GratingTrace ----------------------------
(* Recorded wave-optical calculations of one physical situation under several  *)
(* descriptions, against Grating. Values in units of 1e-6.                     *)
EXTENDS Grating, FixedPoint, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, base
vars == <<l, base>>
Sum2(s) == FoldLeft(LAMBDA a, x : Add(a, x), 0, s)
\* absorption in each layer: sum over its pieces
PerLayer(d, A, nl) == [j \in 1..nl |-> FoldLeft(LAMBDA a, i : a + (IF d.pieces[i][1] = j THEN A[i] ELSE 0), 0, [i \in 1..Len(d.pieces) |-> i])]
Unit(x) == Ok(x) /\ x >= -2 /\ x <= S + 2
\* one result (one polarisation): R, T lists over wavelengths; A list over wavelengths of lists over pieces
Accounts(r) ==
  Chk("reflection, transmission and absorption lie between 0 and 1", \A w \in 1..Len(r.R) : Unit(r.R[w]) /\ Unit(r.T[w]) /\ \A i \in 1..Len(r.A[w]) : Unit(r.A[w][i]))
  \cup Chk("reflection, transmission and absorption add up to 1", \A w \in 1..Len(r.R) : Near(Add(Add(r.R[w], r.T[w]), Sum2(r.A[w])), S, 5 + Len(r.A[w])))
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
Mean(r) ==
  Chk("unpolarised light is the mean of both polarisations",
      \A w \in 1..Len(r.u.R) : /\ Near(2 * r.u.R[w], r.s.R[w] + r.p.R[w], 6) /\ Near(2 * r.u.T[w], r.s.T[w] + r.p.T[w], 6)
                               /\ \A i \in 1..Len(r.u.A[w]) : Near(2 * r.u.A[w][i], r.s.A[w][i] + r.p.A[w][i], 6))
  \cup Chk("profile of unpolarised light is the mean of both polarisations",
      Len(r.u.P) = Len(r.s.P) /\ Len(r.u.P) = Len(r.p.P) /\ \A w \in 1..Len(r.u.P) : Near(2 * r.u.P[w], r.s.P[w] + r.p.P[w], 8000))
Lossless(e, r) == Chk("layers without losses do not absorb",
      \A w \in 1..Len(r.R) : \A i \in 1..Len(r.A[w]) : LET j == e.d.pieces[i][1] IN (j = 0 \/ ~e.lossy[IF j = 0 THEN 1 ELSE j]) => Near(r.A[w][i], 0, 2))
AsBase(e, r, b) ==
  Chk("same reflection and transmission for an equivalent description", NearAll(r.R, b.R, 4) /\ NearAll(r.T, b.T, 4))
  \cup Chk("same absorption in each layer for an equivalent description",
       Len(r.A) = Len(b.A) /\ \A w \in 1..Len(r.A) : NearAll(PerLayer(e.d, r.A[w], e.nl), PerLayer(Plain(e.nl), b.A[w], e.nl), 6))
  \cup Chk("same profile for an equivalent description", Len(r.P) = Len(b.P) /\ \A i \in 1..Len(b.P) : Near(Mul(r.P[i], e.d.unit * S), b.P[i], 6000))
Pols == {"s", "p", "u"}
ByPol(r, q) == CASE q = "s" -> r.s [] q = "p" -> r.p [] OTHER -> r.u
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.kind = "base" -> UNION {Accounts(ByPol(e.res, q)) \cup Lossless(e, ByPol(e.res, q)) : q \in Pols} \cup Mean(e.res)
    [] e.kind = "var" -> IF Physics(e.d, e.nl) # Physics(Plain(e.nl), e.nl) THEN {"description recorded correctly"} ELSE
         Accounts(e.r) \cup Lossless(e, e.r) \cup AsBase(e, e.r, ByPol(base.res, e.pol))
    [] e.kind = "tilt" -> \* any linear polarisation: same accounting, and the two orthogonal ones add up to twice unpolarised light
         Accounts(e.r) \cup Accounts(e.q)
         \cup Chk("orthogonal polarisations average to unpolarised light", \A w \in 1..Len(e.r.R) :
               Near(e.r.R[w] + e.q.R[w], 2 * base.res.u.R[w], 8) /\ Near(e.r.T[w] + e.q.T[w], 2 * base.res.u.T[w], 8))
    [] e.kind = "matrix" -> \* a column of the redistribution matrix against the structure calculation of the same incidence
         Chk("power reflected and transmitted into all orders is the total", Near(e.mR, e.R, 10) /\ Near(e.mT, e.T, 10))
         \cup Chk("absorption per layer of the matrix is that of the structure", NearAll(e.mA, e.A, 10))
    [] e.kind = "eps" -> \* average permittivity: shapes cover the fraction of the unit cell they should
         Chk("mean permittivity follows from the area of the shapes", Near(e.mean, Add(e.host, Mul(e.frac, Sub(e.shape, e.host))), e.tol))
    [] OTHER -> {"completes"}
TraceInit == l = 1 /\ base = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ base' = IF e.kind = "base" /\ e.error = "" THEN e ELSE base
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

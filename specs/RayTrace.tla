------------------------------ MODULE RayTrace ------------------------------
(* Conformance of recorded runs of the real ray tracer with RayStack: every   *)
(* event is one ray with a completely scripted stack (via crafted lookup      *)
(* tables); the expected result is computed by RunRay.                        *)
EXTENDS RayStack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* refraction: sin in medium m is kx / n[m]
SinIn(e, m) == Div(Mul(e.n[e.m0 + 1], e.sin0), e.n[m + 1])
CosIn(e, m) == LET s == SinIn(e, m) IN Sqrt(S - Mul(s, s))
Conf(e) == [N |-> e.N, m0 |-> e.m0, d0 |-> e.d0, sc |-> e.sc, thr |-> e.thr,
            tr |-> [x \in 1..(e.N + 1) |-> IF x = 1 \/ x = e.N + 1 THEN S
                                            ELSE ExpNeg(Div(e.od[x], CosIn(e, x - 1)))]]
\* what each absorbing outcome books per layer (fractions in 1e-6)
Booked(e, s, r) == [j \in 1..e.nl[s] |->
                     IF r.st = "absorbed" /\ r.at = s THEN Mul(r.I, e.split[s][r.by][j]) ELSE 0]

\* absorption density (times layer thickness) at relative depth f of medium m: a sum of exponentials, each decaying
\* from the side at which the ray entered the layer
Density(e, r, m, f) ==
  LET q == Div(e.od[m + 1], CosIn(e, m))
  IN Sum([i \in 1..Len(r.cross) |->
        IF r.cross[i][1] # m THEN 0
        ELSE Mul(Mul(r.cross[i][3], q), ExpNeg(Mul(q, IF r.cross[i][2] = 1 THEN f ELSE S - f)))])
ProfileOK(e, r) ==
  \A k \in 1..Len(e.samples) :
     LET m == e.samples[k][1]  f == e.samples[k][2]  x == Density(e, r, m, f)
     IN Near(e.samples[k][3], x, 300 + x \div 50)

SinOut(e, r) == SinIn(e, r.m)
Tol == 30

Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  LET c == Conf(e)
      r == RunRay(c, RayInit(c), 400)
      refl == IF r.st = "R" THEN r.I ELSE 0
      trns == IF r.st = "T" THEN r.I ELSE 0
      bulk == [x \in 1..(e.N - 1) |-> r.A[x + 1]]
  IN IF r.st = "run" \/ r.edge < 300 THEN {"ambiguous"}
     ELSE Chk("reflected", Near(e.R, refl, Tol))
     \cup Chk("transmitted", Near(e.T, trns, Tol))
     \cup Chk("initially reflected", Near(e.R0, IF r.passes = 0 THEN refl ELSE 0, Tol))
     \cup Chk("bulk layers", Len(e.A) = e.N - 1 /\ \A x \in 1..(e.N - 1) : Near(e.A[x], bulk[x], Tol))
     \cup Chk("interface layers", \A s \in 1..e.N : LET b == Booked(e, s, r) IN
            Len(e.Ai[s]) = e.nl[s] /\ \A j \in 1..e.nl[s] : Near(e.Ai[s][j], b[j], Tol))
     \cup Chk("raw interface layers", \A s \in 1..e.N : LET b == Booked(e, s, r) IN
            e.Araw[s] = <<>> \/ (Len(e.Araw[s]) = e.nl[s] /\ \A j \in 1..e.nl[s] : Near(e.Araw[s][j], b[j], Tol)))
     \cup Chk("passes", \A i \in 1..Len(e.passes) : e.passes[i] = r.passes)
     \cup Chk("interactions", \A i \in 1..Len(e.hits) : e.hits[i] = r.hits)
     \cup Chk("depth profile", ProfileOK(e, r))
     \cup Chk("profile integral", \A x \in 1..Len(e.pint) : Near(e.pint[x], e.A[x], 300 + e.A[x] \div 70))
     \cup (IF r.st \in {"R", "T"}
           THEN Chk("polar direction", \A i \in 1..Len(e.theta) :
                                       Ok(e.theta[i]) /\ (r.st = "R") = (e.theta[i] <= 1570797)
                                       /\ Near(Sin(e.theta[i]), SinOut(e, r), 200))
                \cup (IF e.sin0 < 1000 THEN {} ELSE
                      LET p == SinCos(e.phi0 + PI)
                      IN Chk("azimuthal direction", \A i \in 1..Len(e.phi) :
                               LET q == SinCos(e.phi[i]) IN Near(q[1], p[1], 300) /\ Near(q[2], p[2], 300)))
           ELSE Chk("no outgoing direction", \A i \in 1..Len(e.theta) : e.theta[i] = Bad))
     \cup Chk("ledger", LET tot == Sum(<<e.R, e.T>> \o e.A \o [s \in 1..e.N |-> Sum(e.Ai[s])])
                        IN Ok(tot) /\ tot <= S + Tol /\ tot >= S - e.thr - Tol)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l])
                IN IF bad = {} THEN TRUE
                   ELSE IF bad = {"ambiguous"} THEN PrintT(<<"SKIP", l>>)
                   ELSE \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

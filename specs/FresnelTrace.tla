----------------------------- MODULE FresnelTrace -----------------------------
(* Conformance of recorded ray-tracing results of a single surface with        *)
(* Fresnel. Rays start above (side 1) or below (side 2).                       *)
EXTENDS Fresnel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* incident ray: light comes from the direction (theta, phi); rays from below travel upwards with the same azimuth
Incident(e) == LET u == Unit(e.theta, e.phi) IN [v |-> <<-u[1], -u[2], IF e.side = 1 THEN -u[3] ELSE u[3]>>, side |-> e.side]
Dir(q) == Unit(q[1], q[2])
Same(u, w, tol) == \A i \in 1..3 : Near(u[i], w[i], tol)
\* q: <<theta, phi, booked as "R" or "T", hits>>
Fits(q, r, tol) == Leaves(r) /\ (q[3] = "R") = (r.side = 1) /\ Same(Dir(q), r.v, tol)
Booked(q) == Ok(q[1]) /\ Ok(q[2]) /\ q[3] \in {"R", "T"} /\ (q[3] = "R") = (q[1] <= 1570797)

Planar(e) ==
  LET r == Incident(e)  f == <<0, 0, S>>  n1 == e.na[1]  n2 == e.nb[1]
      from == IF e.side = 1 THEN e.na ELSE e.nb  to == IF e.side = 1 THEN e.nb ELSE e.na
      refl == IF e.side = 1 THEN "R" ELSE "T"
      R == IF e.side = 1 THEN e.R ELSE e.T
      out == {e.rays[i] : i \in DOMAIN e.rays}
  IN Chk("rays are booked by their direction", \A q \in out : Booked(q))
     \cup Chk("a plane surface is met once", \A q \in out : q[4] = 1)
     \cup Chk("all light is reflected or transmitted", Near(Add(e.R, e.T), S, 3))
     \cup Chk("Fresnel reflectance", Near(R, Reflectance(from, to, e.pol, e.theta), e.tol))
     \cup Chk("reflected light leaves at the mirrored direction", \A q \in out : q[3] = refl => Same(Dir(q), Turned(r, f).v, 60))
     \cup Chk("transmitted light follows Snell's law", \A q \in out : q[3] # refl =>
              LET k == CosT2(r, f, n1, n2) IN k > -300 /\ (k < 300 \/ Same(Dir(q), Bent(r, f, n1, n2).v, 400)))

\* texture cells are unit squares with their apex or pit in the middle; the facet below a point of the cell
\* (a ray which meets an edge exactly may do anything: OnEdge)
OnEdge(e, p) == LET dx == p[1] - 500000  dy == p[2] - 500000 IN
  CASE e.facets = "planar" -> FALSE
    [] e.facets = "groovex" -> Abs(dy) < 1000
    [] e.facets = "groovey" -> Abs(dx) < 1000
    [] e.facets = "pyramid" -> Abs(Abs(dx) - Abs(dy)) < 1000
FirstFacet(e, p) ==
  LET t == SinCos(e.a)  s == IF e.up THEN t[1] ELSE -t[1]  c == t[2]  dx == p[1] - 500000  dy == p[2] - 500000
      x == <<IF dx > 0 THEN s ELSE -s, 0, c>>  y == <<0, IF dy > 0 THEN s ELSE -s, c>>
  IN CASE e.facets = "planar" -> <<0, 0, S>>
       [] e.facets = "groovex" -> y
       [] e.facets = "groovey" -> x
       [] e.facets = "pyramid" -> IF Abs(dx) > Abs(dy) THEN x ELSE y
Facet(e) ==
  LET n1 == e.na[1]  n2 == e.nb[1]
      F == TLCEval(Facets(e.facets, e.a))
      r == Incident(e)
      all == TLCEval([k \in 1..3 |-> Reach({r}, F, n1, n2, e.mode, k)])
      From(p, k) == Reach(Outcomes(r, FirstFacet(e, p), n1, n2, e.mode), F, n1, n2, e.mode, k - 1)
      Good(i) == LET q == e.rays[i] IN
                 q[4] > 3 \/ (e.pos # <<>> /\ OnEdge(e, e.pos[i])) \/ \E x \in (IF e.pos = <<>> THEN all[q[4]] ELSE From(e.pos[i], q[4])) : Fits(q, x, 2500)
  IN Chk("rays are booked by their direction", \A i \in DOMAIN e.rays : Booked(e.rays[i]))
     \cup Chk("directions obey the laws of reflection and refraction at the facets that were hit", \A i \in DOMAIN e.rays : Good(i))
     \cup Chk("all light is reflected or transmitted", Near(Add(e.R, e.T), S, 3))

Clauses(e) == IF e.error # "" THEN {"completes"} ELSE
              CASE e.kind = "planar" -> Planar(e) [] e.kind = "facet" -> Facet(e)
                \* recorded finding: a metal seen from a denser (real index) medium
                [] e.kind = "recorded" -> LET b == TLCEval(Planar(e)) IN
                     IF b = {} THEN {} ELSE IF b = {"Fresnel reflectance"} /\ e.R = S
                     THEN {"KNOWN:an absorbing medium of lower real index is taken to reflect everything beyond arcsin(n2/n1)"} ELSE b
                [] OTHER -> {"unknown event"}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

----------------------------- MODULE TextureTrace ---------------------------
(* Recorded standard textures (coordinates divided by the size parameter),   *)
(* checked against what their parameters say.                                *)
EXTENDS Texture, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tris(s) == TLCEval([k \in 1..Len(s.tri) |-> <<s.tri[k][1] + 1, s.tri[k][2] + 1, s.tri[k][3] + 1>>])
PtSet(s) == {s.pts[k] : k \in 1..Len(s.pts)}
HasPts(s, want, tol) == /\ Len(s.pts) = Cardinality(want)
                        /\ \A w \in want : \E k \in 1..Len(s.pts) : VNear(s.pts[k], w, tol)
Tan(a) == LET sc == SinCos(a) IN Div(sc[1], sc[2])
Mirror(P) == {<<p[1], p[2], -p[3]>> : p \in P}
\* --- clauses common to all textures which cover a unit cell
Cover(s, box, who) == Chk("covers the unit cell exactly once: " \o who, CoversOnce(s.pts, Tris(s), box, 2))
SameSide(s, who) == Chk("normals point to the same side: " \o who, \A k \in 1..Len(s.n) : s.n[k][3] > 0)
MirrorImages(e) == Chk("front and back are mirror images", /\ Len(e.front.pts) = Len(e.back.pts)
    /\ \A k \in 1..Len(e.front.pts) : VNear(e.back.pts[k], <<e.front.pts[k][1], e.front.pts[k][2], -e.front.pts[k][3]>>, 2)
    /\ Len(e.front.tri) = Len(e.back.tri))
\* area of the surface relative to the unit cell
AreaOf(s) == FoldLeft(LAMBDA a, k : Add(a, VLen(Cross(VSub(s.pts[k[2]], s.pts[k[1]]), VSub(s.pts[k[3]], s.pts[k[1]])))), 0, Tris(s)) \div 2
Elevation(s, a, who) == Chk("every facet has the requested elevation angle: " \o who, \A k \in 1..Len(s.n) : Near(s.n[k][3], Cos(a), 8))
Box(e) == <<e.box[1], e.box[2], e.box[3], e.box[4]>>
Common(e) == Cover(e.front, Box(e), "front") \cup Cover(e.back, Box(e), "back") \cup SameSide(e.front, "front") \cup SameSide(e.back, "back")
             \cup MirrorImages(e)
\* --- pyramids
Pyr(e) == LET a == e.angle  h == Tan(a) \div 2  z == IF e.upright THEN h ELSE -h
              want == {<<0, 0, 0>>, <<S, 0, 0>>, <<0, S, 0>>, <<S, S, 0>>, <<S \div 2, S \div 2, z>>}
          IN Common(e) \cup Elevation(e.front, a, "front") \cup Elevation(e.back, a, "back")
             \cup Chk("pyramid of the requested size, height and orientation", HasPts(e.front, want, 12))
             \cup Chk("area of the pyramid faces", Near(e.area, Div(S, Cos(a)), 30))
Planar(e) == Common(e) \cup Elevation(e.front, 0, "front") \cup Elevation(e.back, 0, "back")
             \cup Chk("planar surface of the requested size", HasPts(e.front, {<<0, 0, 0>>, <<S, 0, 0>>, <<0, S, 0>>, <<S, S, 0>>}, 2))
             \cup Chk("area of a planar surface", Near(e.area, S, 5))
\* --- V-grooves: ridge along direction dir. The recorded defect: the end of the ridge is at 1 (here one = 1/width) instead of
\* at the width
VPts(e, endp) == LET h == Tan(e.angle) \div 2
                     P(u, v, z) == IF e.dir = "y" THEN <<u, v, z>> ELSE <<v, u, z>>
                 IN {P(0, 0, 0), P(S, 0, 0), P(0, S, 0), P(S, S, 0), P(S \div 2, 0, h), P(S \div 2, endp, h)}
VGroove(e) == IF ~Near(e.one, S, 2) /\ HasPts(e.front, VPts(e, e.one), 12)
              THEN {"KNOWN:V-groove ridge end at 1 instead of the width"} \cup MirrorImages(e) ELSE
              Common(e) \cup Elevation(e.front, e.angle, "front") \cup Elevation(e.back, e.angle, "back")
              \cup Chk("V-groove of the requested width, height and direction", HasPts(e.front, VPts(e, S), 12))
              \cup Chk("area of the V-groove faces", Near(e.area, Div(S, Cos(e.angle)), 30))
\* --- rough textures: height of the smooth texture plus noise between 0 and the noise height; zero around the edges
OnEdge(p) == Near(p[1], 0, 1) \/ Near(p[1], S, 1) \/ Near(p[2], 0, 1) \/ Near(p[2], S, 1)
PyrHeight(p, t) == Mul(t, MinI(MinI(p[1], S - p[1]), MinI(p[2], S - p[2])))
Grid(m) == {<<RDiv(i * S, m - 1), RDiv(j * S, m - 1)>> : i \in 0..(m - 1), j \in 0..(m - 1)}
CeilRoot(n) == CHOOSE m \in 1..n : m * m >= n /\ (m = 1 \/ (m - 1) * (m - 1) < n)
Spacing(e) == IF e.grid THEN RDiv(S, CeilRoot(e.npts) - 1) ELSE Div(S, Sqrt(e.npts * S))
Rough(e) ==
  LET t == IF e.kind = "rough_pyramids" THEN Tan(e.angle) ELSE 0
      noise == Mul(Spacing(e), Tan(e.noise))
      sg == IF e.upright THEN 1 ELSE -1
      tol == 6 + 2 * (t \div S)
  IN Common(e)
     \cup Chk("heights around the edges are zero", \A k \in 1..Len(e.front.pts) : OnEdge(e.front.pts[k]) => Near(e.front.pts[k][3], 0, 1))
     \cup Chk("heights are those of the smooth texture plus limited noise", \A k \in 1..Len(e.front.pts) : LET p == e.front.pts[k] IN
            OnEdge(p) \/ (Sub(sg * p[3], PyrHeight(p, t)) >= -tol /\ Sub(sg * p[3], PyrHeight(p, t)) <= noise + tol))
     \cup Chk("noise is present", e.noise < 20000 \/ \E k, m \in 1..Len(e.front.pts) : ~OnEdge(e.front.pts[k]) /\ ~OnEdge(e.front.pts[m]) /\ Abs(Sub(Sub(sg * e.front.pts[k][3], PyrHeight(e.front.pts[k], t)), Sub(sg * e.front.pts[m][3], PyrHeight(e.front.pts[m], t)))) > noise \div 3)
     \cup Chk("number and places of the points", IF e.grid THEN LET G == Grid(CeilRoot(e.npts)) IN
              Len(e.front.pts) = Cardinality(G) /\ \A g \in G : \E k \in 1..Len(e.front.pts) : Near(e.front.pts[k][1], g[1], 3) /\ Near(e.front.pts[k][2], g[2], 3)
            ELSE Len(e.front.pts) = e.npts /\ \A c \in {<<0, 0>>, <<S, 0>>, <<0, S>>, <<S, S>>} : \E k \in 1..Len(e.front.pts) : e.front.pts[k][1] = c[1] /\ e.front.pts[k][2] = c[2])
\* --- hemispherical cap in a plane, centre of the unit cell
Cap(e) ==
  LET sg == IF e.upright THEN 1 ELSE -1
      r2lim == Sub(Mul(e.radius, e.radius), Mul(e.offset, e.offset))
      R2(p) == Add(Mul(p[1] - S \div 2, p[1] - S \div 2), Mul(p[2] - S \div 2, p[2] - S \div 2))
      CapZ(p) == Mul(e.stretch, Sub(Sqrt(Sub(Mul(e.radius, e.radius), R2(p))), e.offset))
      noise == Mul(RDiv(S, e.npts - 1), Tan(e.noise))
      \* slope of the cap makes rounding matter near the rim
      tolz(p) == 20 + Div(60, MaxI(2000, Sqrt(Sub(Mul(e.radius, e.radius), R2(p))))) * (1 + e.stretch \div S)
  IN Common(e)
     \cup Chk("cap and plane heights", \A k \in 1..Len(e.front.pts) : LET p == e.front.pts[k]  z == sg * p[3] IN
            IF R2(p) < r2lim - 10 THEN Near(z, CapZ(p), tolz(p)) \/ (R2(p) > r2lim - 2000 /\ z >= -3 /\ z <= CapZ(p) + tolz(p) + noise)
            ELSE IF R2(p) <= r2lim + 10 THEN z >= -3 /\ (z <= CapZ(p) + tolz(p) + noise)
            ELSE (IF OnEdge(p) THEN Near(z, 0, 2) ELSE z >= -2 /\ z <= noise + 4))
     \cup Chk("the cap is there", r2lim < 40000 \/ \E k \in 1..Len(e.front.pts) : R2(e.front.pts[k]) < (2 * r2lim) \div 3)
     \cup Chk("the rim of the cap is marked", e.noise # 0 \/ Cardinality({k \in 1..Len(e.front.pts) : Near(R2(e.front.pts[k]), r2lim, 20) /\ Near(e.front.pts[k][3], 0, 20)}) >= 4 * e.npts)
\* --- textures given by the user
Given(e) == Common(e) \cup Chk("points are the given ones", Len(e.front.pts) = Len(e.given) /\ \A k \in 1..Len(e.given) : \E m \in 1..Len(e.front.pts) : VNear(e.front.pts[m], e.given[k], 3))
            \cup Chk("area of the texture", Near(e.area, Div(AreaOf(e.front), Mul(e.box[2] - e.box[1], e.box[4] - e.box[3])), 40 + 4 * Len(e.front.tri)))
Heights(e) == LET ny == Len(e.z)  nx == Len(e.z[1]) IN
  Common(e) \cup Chk("heights are at their place of the grid", Len(e.front.pts) = nx * ny /\ \A i \in 1..ny, j \in 1..nx : \E m \in 1..Len(e.front.pts) :
      VNear(e.front.pts[m], <<RDiv((j - 1) * e.box[2], nx - 1), RDiv((i - 1) * e.box[4], ny - 1), e.z[i][j]>>, 3))
\* --- open sphere
Mid3(s, t) == <<(s.pts[t[1]][1] + s.pts[t[2]][1] + s.pts[t[3]][1]) \div 3, (s.pts[t[1]][2] + s.pts[t[2]][2] + s.pts[t[3]][2]) \div 3, (s.pts[t[1]][3] + s.pts[t[2]][3] + s.pts[t[3]][3]) \div 3>>
Sphere(s, h, dir, who) ==
  LET c == <<0, 0, h>>  T == Tris(s)  E == TLCEval(DirectedEdges(T)) IN
  Chk("points lie on the sphere: " \o who, \A k \in 1..Len(s.pts) : Near(VLen(VSub(s.pts[k], c)), S, 12))
  \cup Chk("normals point to the same side: " \o who, \A k \in 1..Len(T) : dir * Dot(s.n[k], VSub(Mid3(s, T[k]), c)) > 0)
  \cup Chk("surface is closed except at the base: " \o who, Oriented(T, E) /\ \A b \in Boundary(E) : Abs(s.pts[b[1]][3]) <= 101000 /\ Abs(s.pts[b[2]][3]) <= 101000)
  \cup Chk("triangles are corners of the stored points: " \o who, \A k \in 1..Len(T) : VNear(s.p0[k], s.pts[T[k][1]], 3) /\ VNear(s.p1[k], s.pts[T[k][2]], 3) /\ VNear(s.p2[k], s.pts[T[k][3]], 3))
Hyper(e) == Sphere(e.front, e.h, 1, "front") \cup Sphere(e.back, -e.h, -1, "back") \cup MirrorImages(e)
            \cup Chk("sphere reaches from the base to the top", /\ \A k \in 1..Len(e.front.pts) : e.front.pts[k][3] >= -2
                    /\ \E k \in 1..Len(e.front.pts) : e.front.pts[k][3] >= S + e.h - 20000)
            \cup Chk("the rim is at the base plane", LET base == {k \in 1..Len(e.front.pts) : e.front.pts[k][3] = 0} IN base # {} /\ \A k \in base :
                    Near(Add(Mul(e.front.pts[k][1], e.front.pts[k][1]), Mul(e.front.pts[k][2], e.front.pts[k][2])), S - Mul(e.h, e.h), 20))
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  CASE e.kind = "pyramids" -> Pyr(e) [] e.kind = "planar" -> Planar(e) [] e.kind = "vgroove" -> VGroove(e)
    [] e.kind \in {"rough_pyramids", "rough_planar"} -> Rough(e) [] e.kind = "cap" -> Cap(e) [] e.kind = "xyz" -> Given(e)
    [] e.kind = "heights" -> Heights(e) [] e.kind = "hyper" -> Hyper(e) [] OTHER -> {"unknown kind"}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

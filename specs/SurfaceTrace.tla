----------------------------- MODULE SurfaceTrace ---------------------------
(* Recorded histories of real surfaces, validated against Surface. The       *)
(* monitor keeps the abstract state of every object (obj) and the shape it   *)
(* was created with (orig).                                                  *)
EXTENDS Surface, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj, orig
\* height of the texture now: the point furthest from the base at creation
HeightNow(s, o) == Abs(Sub(s.pts[o.top][3], s.zcov))
\* geometry of one recorded surface is consistent in itself
Consistent(s) ==
  IF ~s.shape THEN {"shape of the stored arrays"} ELSE
  LET nt == Len(s.tri)
      P(t, k) == s.pts[s.tri[t][k] + 1]
      c == TLCEval([t \in 1..nt |-> Cross(VSub(P(t, 2), P(t, 1)), VSub(P(t, 3), P(t, 1)))])
      xs == {s.pts[p][1] : p \in 1..Len(s.pts)}  ys == {s.pts[p][2] : p \in 1..Len(s.pts)}  zs == {s.pts[p][3] : p \in 1..Len(s.pts)}
  IN Chk("triangle corners are the current points", \A t \in 1..nt : VNear(s.p0[t], P(t, 1), 3) /\ VNear(s.p1[t], P(t, 2), 3) /\ VNear(s.p2[t], P(t, 3), 3))
     \cup Chk("cross products belong to the triangles", \A t \in 1..nt : VNear(s.cross[t], c[t], 30 + 8 * s.span))
     \cup Chk("normals are unit vectors along the cross products", \A t \in 1..nt :
            LET m == VLen(c[t]) IN m < 20000 \/ VNear(s.n[t], <<Div(c[t][1], m), Div(c[t][2], m), Div(c[t][3], m)>>, 4000 + 100 * s.span))
     \cup Chk("normals have length 1", \A t \in 1..nt : Near(VLen(s.n[t]), S, 10))
     \cup Chk("bounding box encloses exactly the points",
            /\ s.box[1] \in xs /\ s.box[2] \in xs /\ s.box[3] \in ys /\ s.box[4] \in ys /\ s.box[5] \in zs /\ s.box[6] \in zs
            /\ \A x \in xs : s.box[1] <= x /\ x <= s.box[2]
            /\ \A y \in ys : s.box[3] <= y /\ y <= s.box[4]
            /\ \A z \in zs : s.box[5] <= z /\ z <= s.box[6])
     \cup Chk("size of the unit cell", Near(s.L[1], Sub(s.box[2], s.box[1]), 2) /\ Near(s.L[2], Sub(s.box[4], s.box[3]), 2))
     \cup Chk("number of triangles", s.size = nt)
\* recorded surface s is the abstract surface a with the original o
Agrees(s, a, o) ==
  IF Len(s.pts) # Len(o.pts) THEN {"number of points"} ELSE
     Chk("lateral coordinates never change", \A p \in 1..Len(s.pts) : s.pts[p][1] = o.pts[p][1] /\ s.pts[p][2] = o.pts[p][2])
     \cup Chk("base is where the shifts put it", Near(s.zcov, a.base, 3))
     \cup Chk("heights are the drawn height relative to the base", \A p \in 1..Len(s.pts) : Near(s.pts[p][3], ZOf(a, Sub(o.pts[p][3], o.zcov), o.h), 8 + (2 * Abs(a.h)) \div S))
     \cup Chk("triangulation never changes", s.tri = o.tri)
\* objects after the event
Step(e) ==
  LET i == e.i IN
  CASE e.op = "shift" -> [obj EXCEPT ![i] = Shifted(@, e.dz)]
    [] e.op = "copy" -> Append(obj, obj[i])
    [] e.op = "refresh" -> LET hs == {h \in Draws(obj[i]) : Near(h, HeightNow(e.s[i], orig[i]), 8)}
                           IN IF obj[i].H = {} \/ hs = {} THEN obj ELSE [obj EXCEPT ![i] = Drawn(@, CHOOSE h \in hs : TRUE)]
    [] OTHER -> obj
Fresh(s) == [base |-> s.zcov, h |-> HeightNow(s, s), H |-> {s.H[k] : k \in 1..Len(s.H)}]
Orig(s) == s @@ [h |-> HeightNow(s, s)]
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  IF e.op = "freq" THEN
    Chk("drawn heights follow the prescribed probabilities", \A k \in 1..Len(e.count) :
        LET d == e.count[k] * 1000 - e.n * e.p[k]   v == (e.n * e.p[k]) \div 1000 IN
        /\ (e.p[k] = 0 => e.count[k] = 0) /\ (e.p[k] = 1000 => e.count[k] = e.n)
        /\ (d \div 1000) * (d \div 1000) <= 40 * v + 100)
    \cup Chk("every drawn height is one of the distribution", Sum(e.count) = e.n)
  ELSE
  LET nobj == obj'  norig == orig' IN
  (IF Len(e.s) # Len(nobj) THEN {"number of objects"} ELSE
   UNION {Consistent(e.s[i]) : i \in 1..Len(e.s)}
   \cup UNION {Agrees(e.s[i], nobj[i], norig[i]) : i \in 1..Len(e.s)})
   \cup (IF e.op = "refresh" THEN Chk("refreshed height is one of the distribution", obj[e.i].H = {} \/ \E h \in obj[e.i].H : Near(h, HeightNow(e.s[e.i], orig[e.i]), 8)) ELSE {})
   \cup (IF e.op = "new" THEN Chk("base of a new surface", Near(e.s[1].zcov, e.base, 2)) ELSE {})
TraceInit == l = 1 /\ obj = <<>> /\ orig = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF e.error # "" \/ e.op = "freq" THEN UNCHANGED <<obj, orig>>
                   ELSE IF e.op = "new" THEN obj' = <<Fresh(e.s[1])>> /\ orig' = <<Orig(e.s[1])>>
                   ELSE obj' = Step(e) /\ orig' = (IF e.op = "copy" THEN Append(orig, orig[e.i]) ELSE orig)
                /\ LET bad == Clauses(e) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

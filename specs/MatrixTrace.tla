----------------------------- MODULE MatrixTrace ----------------------------
(* Conformance of recorded matrix-method calculations with Matrix/Channels.   *)
(* One event is one calculation: a discretisation, an incidence direction, a  *)
(* group of wavelengths with their matrices, and everything that was returned.*)
EXTENDS Matrix, Channels, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tol == 60

Only(X) == CHOOSE x \in X : TRUE
\* launch vector
V0(e) == IF e.all
         THEN LET g == Only(AllAz(e.d, e.theta)) IN [i \in 1..NIn(e.d) |-> IF (i - 1) \in g THEN RDiv(S, Cardinality(g)) ELSE 0]
         ELSE LET c == Only(LaunchSet(e.d, e.theta, e.az[1], e.az[2])) IN [i \in 1..NIn(e.d) |-> IF i - 1 = c THEN S ELSE 0]
\* hand-over maps as indices of incoming channels
Dn(d) == [i \in 1..NIn(d) |-> Only(HandOver(d, NIn(d) + i - 1)) + 1]
Up(d) == [i \in 1..NIn(d) |-> Only(HandOver(d, i - 1)) - NIn(d) + 1]
\* the edges of the polar bins (recorded by the harness) must be those of the discretisation
EdgesOK(e) == \A i \in 0..e.d.n : IF e.d.lin THEN Near(e.edges[i + 1], RDiv(1570796 * i, e.d.n), 3)
                                  ELSE Near(Sin(e.edges[i + 1]), RDiv(S * i, e.d.n), 5)
CosOf(e) == LET T == Table(e.d) IN
            [i \in 1..NIn(e.d) |-> LET t == T[i][1] IN Cos((e.edges[t + 1] + e.edges[t + 2]) \div 2)]
Sys(e, w, dn, up, cs) ==
  LET tr == [i \in 1..NIn(e.d) |-> ExpNeg(Div(w.od, cs[i]))]
  IN [n |-> NIn(e.d), Rf |-> w.Rf, Tf |-> w.Tf, Af |-> w.Af, Rb |-> w.Rb, Tb |-> w.Tb, Ab |-> w.Ab,
      R2 |-> w.R2, T2 |-> w.T2, A2 |-> w.A2, dn |-> dn, up |-> up, tr |-> tr, tu |-> tr, thr |-> e.thr]

NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
NearRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)

\* depth profile of an interface: every time light v arrives, sum over channels of v times the profile of that channel
Visits(s, tag) == SelectSeq(s.seen, LAMBDA x : x[1] = tag)
ProfAt(P, s, tag, z) == LET vs == Visits(s, tag) IN
   Sum([k \in 1..Len(vs) |-> Sum([j \in 1..Len(P) |-> Mul(P[j][z], vs[k][2][j])])])
\* bulk density times thickness at relative depth f
BulkAt(w, cs, s, f) ==
  Sum([k \in 1..Len(s.seen) |->
     IF s.seen[k][1] \notin {"d", "u"} THEN 0
     ELSE LET g == IF s.seen[k][1] = "d" THEN f ELSE S - f IN
          Sum([i \in 1..Len(cs) |-> LET q == Div(w.od, cs[i]) IN Mul(Mul(q, s.seen[k][2][i]), ExpNeg(Mul(q, g)))])])

Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  LET d == e.d  dn == TLCEval(Dn(d))  up == TLCEval(Up(d))  cs == TLCEval(CosOf(e))  v0 == TLCEval(V0(e))  nw == Len(e.wl)
      ys == TLCEval([i \in 1..nw |-> Sys(e, e.wl[i], dn, up, cs)])
      ss0 == TLCEval([i \in 1..nw |-> EnterFront(ys[i], Light(ys[i], v0))])
      ss == TLCEval(IterAll(ys, ss0, 60))
      prev == TLCEval(IterAll(ys, ss0, ss[1].pass - 1))
      edge == \E i \in 1..nw : Near(Power(ss[i]), e.thr, 200) \/ Near(Power(prev[i]), e.thr, 200)
      o == e.obs
  IN IF ~EdgesOK(e) THEN {"harness: edges"} ELSE
     IF edge /\ Len(o.t) # ss[1].pass THEN {"ambiguous"} ELSE
     IF Len(o.t) # ss[1].pass THEN {"light is followed until the power inside is at or below the cut-off"} ELSE
     Chk("reflected per pass", \A i \in 1..nw : NearRows([p \in 1..Len(o.r) |-> o.r[p][i]], ss[i].r, Tol))
     \cup Chk("transmitted per pass", \A i \in 1..nw : NearRows([p \in 1..Len(o.t) |-> o.t[p][i]], ss[i].t, Tol))
     \cup Chk("absorbed in the front surface per pass", \A i \in 1..nw : NearRows([p \in 1..Len(o.a1) |-> o.a1[p][i]], ss[i].a1, Tol))
     \cup Chk("absorbed in the back surface per pass", \A i \in 1..nw : NearRows([p \in 1..Len(o.a2) |-> o.a2[p][i]], ss[i].a2, Tol))
     \cup Chk("absorbed in the bulk per pass", \A i \in 1..nw : NearSeq([p \in 1..Len(o.A) |-> o.A[p][i]], ss[i].A, Tol))
     \cup Chk("total reflection", \A i \in 1..nw : Near(o.R[i], Total(ss[i].r), Tol))
     \cup Chk("total transmission", \A i \in 1..nw : Near(o.T[i], Total(ss[i].t), Tol))
     \cup Chk("total bulk absorption", \A i \in 1..nw : Near(o.Abulk[i], Sum(ss[i].A), Tol))
     \cup Chk("total interface absorption", o.Aint = <<>> \/ \A i \in 1..nw :
              Near(o.Aint[1][i], Total(ss[i].a1), Tol) /\ Near(o.Aint[2][i], Total(ss[i].a2), Tol))
     \cup Chk("totals add up to what was launched minus what is left inside", \A i \in 1..nw :
              LET a == Sum([p \in 1..Len(o.a1) |-> Sum(o.a1[p][i])]) + Sum([p \in 1..Len(o.a2) |-> Sum(o.a2[p][i])])
              IN Near(o.R[i] + o.T[i] + o.Abulk[i] + a + Power(ss[i]), S, 2 * Tol))
     \cup Chk("requested profiles returned", Len(o.prof) = Len(e.prof))
     \cup Chk("interface profile", Len(o.prof) # Len(e.prof) \/ \A k \in 1..Len(e.prof) : \A i \in 1..nw :
              LET q == e.prof[k] IN
              Len(o.prof[k][i]) = q.nz /\ \A z \in 1..q.nz :
                 Near(o.prof[k][i][z],
                      IF q.at = 1 THEN Add(ProfAt(e.wl[i].Pf, ss[i], "f", z), ProfAt(e.wl[i].Pb, ss[i], "F", z))
                      ELSE ProfAt(e.wl[i].P2, ss[i], "b", z), 2 * Tol))
     \cup Chk("bulk profile", \A k \in 1..Len(o.bulk) :
              LET i == o.bulk[k][1]  x == BulkAt(e.wl[i], cs, ss[i], o.bulk[k][2])
              IN Near(o.bulk[k][3], x, 500 + x \div 25))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l])
                IN IF bad = {"ambiguous"} THEN TRUE ELSE \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

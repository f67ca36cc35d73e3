------------------------------ MODULE TmmTrace ------------------------------
(* Conformance of recorded multilayer calculations with Tmm. Values are listed *)
(* per wavelength; e.med[w] is the stack in units of that wavelength.          *)
EXTENDS TmmField, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Frac(x, t) == Ok(x) /\ x >= -t /\ x <= S + t
Shaped(q, W, L) == /\ Len(q.R) = W /\ Len(q.T) = W /\ Len(q.A) = W /\ Len(q.L) = W /\ \A w \in 1..W : Len(q.L[w]) = L
SameTo(q, r, W, L, t) == \A w \in 1..W : Near(q.R[w], r.R[w], t) /\ Near(q.T[w], r.T[w], t) /\ Near(q.A[w], r.A[w], t)
                                        /\ \A j \in 1..L : Near(q.L[w][j], r.L[w][j], t)
Agrees(q, w, o, t) == /\ Near(q.R[w], o.R, t) /\ Near(q.T[w], o.T, t) /\ \A j \in DOMAIN o.A : Near(q.L[w][j], o.A[j], t)

\* one call for each polarisation of the same stack
Calc(e) ==
  LET W == Len(e.med)  L == Len(e.med[1]) - 2 IN
  IF \E p \in {"s", "p", "u"} : ~Shaped(e.res[p], W, L) THEN {"shape of the results"} ELSE
  Chk("results defined and within [0, 1]", \A p \in {"s", "p", "u"}, w \in 1..W :
      /\ Frac(e.res[p].R[w], 2) /\ Frac(e.res[p].T[w], 2) /\ Frac(e.res[p].A[w], 2) /\ \A j \in 1..L : Frac(e.res[p].L[w][j], 2))
  \cup Chk("R + T + A = 1", \A p \in {"s", "p", "u"}, w \in 1..W : Near(Sum(<<e.res[p].R[w], e.res[p].T[w], e.res[p].A[w]>>), S, 5))
  \cup Chk("absorption per layer adds up to A", \A p \in {"s", "p", "u"}, w \in 1..W : Near(Sum(e.res[p].L[w]), e.res[p].A[w], e.ltol))
  \cup Chk("unpolarised is the mean of s and p", \A w \in 1..W :
      LET f(x, y, z) == Near(Add(x, x), Add(y, z), 5)  u == e.res.u  s == e.res.s  p == e.res.p IN
      f(u.R[w], s.R[w], p.R[w]) /\ f(u.T[w], s.T[w], p.T[w]) /\ f(u.A[w], s.A[w], p.A[w])
      /\ \A j \in 1..L : Near(Add(u.L[w][j], u.L[w][j]), Add(s.L[w][j], p.L[w][j]), 2 * e.ltol))
  \cup (IF e.normal THEN Chk("polarisations coincide at normal incidence", SameTo(e.res.s, e.res.p, W, L, 5 + e.ltol)) ELSE {})
  \cup Chk("agrees with the multilayer specification", \A w \in 1..W :
      LET s == TLCEval(Stack(e.med[w], "s", e.kx[w]))  p == TLCEval(Stack(e.med[w], "p", e.kx[w])) IN
      Agrees(e.res.s, w, s, e.tol) /\ Agrees(e.res.p, w, p, e.tol))

\* edited stacks: e.steps[i] is the result after edit i together with how its layers correspond to those of the first:
\* map[j] is the set (a list) of layers of this stack which layer j of the first has become; [] when it has been removed
Edit(e) ==
  LET W == Len(e.steps[1].R)
      Same(i) == LET q == e.steps[i]  r == e.steps[q.ref] IN
                 IF Len(q.R) # W \/ Len(q.L) # W \/ \E w \in 1..W : Len(q.L[w]) # Len(q.ws) THEN FALSE ELSE
                 \A w \in 1..W : /\ Near(q.T[w], r.T[w], q.tol)
                                 /\ q.rev \/ (/\ Near(q.R[w], r.R[w], q.tol)
                                              /\ \A m \in DOMAIN q.map :
                                                 Near(Sum([x \in 1..Len(q.map[m]) |-> q.L[w][q.map[m][x]]]),
                                                      Sum([x \in 1..Len(r.map[m]) |-> r.L[w][r.map[m][x]]]), q.tol))
  IN UNION {Chk("unchanged by: " \o e.steps[i].what, Same(i)) : i \in {i \in 2..Len(e.steps) : e.steps[i].ref > 0}}
     \cup Chk("result after every edit agrees with the multilayer specification", \A i \in 1..Len(e.steps) :
          LET q == e.steps[i] IN \A w \in 1..W : Agrees(q, w, TLCEval(Result(q.med[w], q.pol, q.kx[w])), q.otol))
     \cup Chk("total thickness follows the layers", \A i \in 1..Len(e.steps) : Near(e.steps[i].width, Sum(e.steps[i].ws), 5))

\* depth profile of one calculation (one polarisation)
Prof(e) ==
  LET W == Len(e.med) IN
  IF Len(e.layers) # Len(e.lay) \/ \E j \in DOMAIN e.lay : Len(e.lay[j]) # W THEN {"shape of the profile"} ELSE
  IF \E j \in DOMAIN e.lay, w \in 1..W : Len(e.lay[j][w].v) # e.npts[j] THEN {"one profile value per position"} ELSE
  Chk("profile defined and never negative", \A j \in DOMAIN e.lay, w \in 1..W : \A x \in DOMAIN e.lay[j][w].v : Ok(e.lay[j][w].v[x]) /\ e.lay[j][w].v[x] >= 0)
  \cup Chk("profile integrates to the absorption of its layer", \A j \in DOMAIN e.lay, w \in 1..W :
           LET q == e.lay[j][w] IN q.v = << >> \/ Near(Integral(q.v, q.hk, q.z0, q.z1), q.A, q.itol))
  \cup Chk("profile is what its coefficients describe", \A j \in DOMAIN e.lay, w \in 1..W :
           \A x \in DOMAIN e.lay[j][w].v : Near(e.lay[j][w].v[x], e.lay[j][w].c[x], e.lay[j][w].ctol))
  \cup Chk("profile of some layers is that part of the full profile", \A j \in DOMAIN e.lay, w \in 1..W :
           /\ Len(e.lay[j][w].f) = Len(e.lay[j][w].v)
           /\ \A x \in DOMAIN e.lay[j][w].v : Near(e.lay[j][w].v[x], e.lay[j][w].f[x], 2))
  \cup Chk("results with and without profile agree", e.sameRTA)
  \cup Chk("absorption density agrees with the multilayer specification", \A j \in DOMAIN e.lay, w \in 1..W :
           ~e.oracle \/ LET q == e.lay[j][w]
                            o == TLCEval(DensAt(e.med[w], e.pol, e.kx[w], e.layers[j] + 1, q.oz))
                        IN \A x \in DOMAIN o : Near(q.v[q.oi[x]], o[x], q.otol))

\* lookup tables: entry (side, angle, polarisation) against the stack seen from that side and against a direct calculation
Lut(e) ==
  Chk("entry defined and within [0, 1]", \A x \in {e.tab.R, e.tab.T} \cup {e.tab.L[j] : j \in DOMAIN e.tab.L} : Frac(x, 2))
  \cup Chk("entry equals the direct calculation from that side", Len(e.tab.L) = Len(e.dir.L) /\ Near(e.tab.R, e.dir.R, 3) /\ Near(e.tab.T, e.dir.T, 3)
           /\ \A j \in DOMAIN e.tab.L : Near(e.tab.L[j], e.dir.L[IF e.side = 1 THEN j ELSE Len(e.tab.L) + 1 - j], 3))
  \cup Chk("profile parameters equal the direct calculation from that side", Len(e.pc) = Len(e.dpc)
           /\ \A j \in DOMAIN e.pc : Len(e.pc[j]) = Len(e.dpc[j]) /\ \A c \in DOMAIN e.pc[j] : Near(e.pc[j][c], e.dpc[j][c], 3 + Abs(e.dpc[j][c]) \div 20000))
  \cup Chk("entry agrees with the multilayer specification",
           ~e.oracle \/ LET o == TLCEval(Result(e.med, e.pol, e.kx)) IN
           /\ Near(e.tab.R, o.R, e.tol) /\ Near(e.tab.T, o.T, e.tol)
           /\ \A j \in DOMAIN o.A : Near(e.tab.L[IF e.side = 1 THEN j ELSE Len(o.A) + 1 - j], o.A[j], e.tol))
  \cup Chk("unpolarised entry is the mean of s and p", \A x \in DOMAIN e.mean : Near(Add(e.mean[x][1], e.mean[x][1]), Add(e.mean[x][2], e.mean[x][3]), 5 + Abs(e.mean[x][1]) \div 20000))
  \cup Chk("table returned equals table stored", e.stored)
  \cup Chk("angles of the table span normal to grazing incidence", e.angles)

\* a stack whose back reflection is suppressed reflects like one on a half space of its last material
NoBack(e) ==
  Chk("no back reflection: reflects as if the last material went on for ever", \A w \in DOMAIN e.med :
      Near(e.R[w], TLCEval(Result(e.med[w], e.pol, e.kx[w])).R, e.tol))
  \cup Chk("no back reflection: power is conserved", \A w \in DOMAIN e.med : Near(Sum(e.L[w]) + e.R[w] + e.T[w], S, 20))

\* two recorded findings (known_findings.txt), each one fixed stack: the calculation is still made and judged
Recorded(e) ==
  LET bad == TLCEval(Calc(e))
      m == e.med[1]  N == Len(m)
      grazing == Len(e.med) = 1 /\ N = 3 /\ m[1].n = <<3500000, 0>> /\ m[2].n = <<1500000, 0>> /\ m[2].inc /\ m[3].n = <<3500000, 1000000>>
      plasmon == Len(e.med) = 1 /\ N = 3 /\ m[1].n = <<1500000, 0>> /\ m[2].n = <<130000, 3600000>> /\ ~m[2].inc /\ m[3].n = <<1000000, 0>>
  IN IF bad = {} THEN {} ELSE
     IF grazing THEN {"KNOWN:light evanescent in an incoherent layer gives undefined or negative results (solcore inc_tmm)"}
     ELSE IF plasmon /\ bad = {"agrees with the multilayer specification"}
          THEN {"KNOWN:total reflection at the exit medium behind an absorbing layer uses the growing wave (solcore list_snell)"} ELSE bad

Clauses(e) == IF e.error # "" THEN {"completes"} ELSE
              CASE e.kind = "calc" -> Calc(e) [] e.kind = "edit" -> Edit(e) [] e.kind = "prof" -> Prof(e)
                [] e.kind = "lut" -> Lut(e) [] e.kind = "noback" -> NoBack(e) [] e.kind = "recorded" -> Recorded(e) [] OTHER -> {"unknown event"}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

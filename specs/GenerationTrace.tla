--------------------------- MODULE GenerationTrace ---------------------------
(* Conformance of recorded generation functions with Generation. Lengths in     *)
(* 1e-3 nm. e.F and e.full list the function (times the thickness of the layer  *)
(* that lies there) at the recorded positions, per wavelength, when the profiles *)
(* marked in e.ps / all profiles were requested.                                *)
EXTENDS Generation, TmmField, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Close(a, b) == Abs(a - b) <= 2 + Abs(b) \div 10000000
\* trapezium rule in units of the step; z0 steps above the first sample and z1 below the last one belong to the layer as well
Trap(v, z0, z1) ==
  LET n == Len(v)
      end(z, i, j) == Add(Mul(z, v[i]), IF n = 1 THEN 0 ELSE RDiv(Mul(Mul(z, z), Sub(v[i], v[j])), 2))
  IN Sum(<<Sub(Sum(v), RDiv(Add(v[1], v[n]), 2)), end(z0, 1, 2), end(z1, n, n - 1)>>)
Gen(e) ==
  LET P == TLCEval(Positions(e.ps))
      W == Len(e.F)
      \* rounding can add a sample at the very end of a layer, at the position of the first one of the next layer
      end == Thick(e.ps[Len(e.ps)]) + Top(e.ps, Len(e.ps))
      keep == TLCEval(SelectSeq([x \in DOMAIN e.pos |-> x], LAMBDA x : ~e.snap \/
                ((x = Len(e.pos) \/ ~Close(e.pos[x], e.pos[x + 1])) /\ ~(x = Len(e.pos) /\ Close(e.pos[x], end)))))
      F == TLCEval([w \in 1..W |-> [x \in DOMAIN keep |-> e.F[w][keep[x]]]])
      full == TLCEval([w \in 1..W |-> [x \in DOMAIN keep |-> e.full[w][keep[x]]]])
      kj == TLCEval([x \in DOMAIN P |-> At(e.ps, P[x])])
      N == {<<k, j>> \in (1..Len(e.ps)) \X (1..8) : j \in DOMAIN e.ps[k].lay}
      \* samples which are exactly on a boundary may belong to either layer
      idx == TLCEval([n \in N |-> SelectSeq([x \in DOMAIN P |-> x], LAMBDA x : kj[x] = n /\ (e.snap => P[x] # LayerTop(e.ps, n[1], n[2])))])
      Lay(n) == e.ps[n[1]].lay[n[2]]
      sub(f, n) == [x \in DOMAIN idx[n] |-> f[idx[n][x]]]
  IN IF Len(e.F) # Len(e.full) \/ \E w \in 1..W : Len(e.F[w]) # Len(e.pos) \/ Len(e.full[w]) # Len(e.pos) THEN {"one value for every position"} ELSE
     IF ~(Len(keep) = Len(P) /\ \A x \in DOMAIN P : Close(e.pos[keep[x]], P[x])) THEN {"one position for every sample, from the top to the bottom of the structure"} ELSE
     Chk("values are defined and never negative", \A w \in 1..W, x \in DOMAIN P : Ok(F[w][x]) /\ F[w][x] >= 0)
     \cup Chk("nothing where no profile was requested", \A n \in N : Lay(n).req \/ \A w \in 1..W, x \in DOMAIN idx[n] : F[w][idx[n][x]] = 0)
     \cup Chk("the same whichever profiles were requested", \A n \in N : ~Lay(n).req \/ \A w \in 1..W, x \in DOMAIN idx[n] :
              LET i == idx[n][x] IN Near(F[w][i], full[w][i], 2 + Mul(e.rel, MaxSeq(sub(full[w], n)))))
     \cup Chk("integrates to the reported absorption of every layer", e.snap \/ \A n \in N : \A w \in 1..W :
              LET q == Lay(n)  v == sub(full[w], n)
              IN v = <<>> \/ Near(Mul(Trap(v, q.z0, q.z1), q.hw), q.A[w], q.itol[w]))
     \cup Chk("density agrees with the multilayer specification", e.snap \/ \A i \in DOMAIN e.orc :
              \* samples o.i of one layer; if o.norm, the shape only: density / absorption of the layer
              LET o == e.orc[i]
                  d == TLCEval(DensAt(o.med, o.pol, o.kx, o.j + 1, o.z))
                  A == IF o.norm THEN TLCEval(Result(o.med, o.pol, o.kx)).A[o.j] ELSE S
                  B == IF o.norm THEN o.A ELSE S
                  lhs == TLCEval([x \in DOMAIN o.z |-> Mul(full[o.w][o.i[x]], A)])
              IN A < 10000 \/ B < 3000 \/ \A x \in DOMAIN o.z : Near(lhs[x], Mul(Mul(d[x], o.d), B), 200 + Mul(o.rel, MaxSeq(lhs))))

Clauses(e) == IF e.error # "" THEN {"completes"} ELSE Gen(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

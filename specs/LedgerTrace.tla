----------------------------- MODULE LedgerTrace -----------------------------
(* Conformance of recorded ray-tracing results with Ledger: one event is one   *)
(* wavelength of one calculation, with the fate of every ray.                  *)
EXTENDS Ledger, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* the intensity a ray left with is not reported; RouteOK is RayOK for some intensity
Ray(q) == [st |-> q[1], p |-> q[2], h |-> q[3]]
RouteOK(N, s0, q, thr, best) == LET m == MostI(q, best) IN
  /\ RayOK(N, s0, MinI(thr, m), [st |-> q.st, I |-> IF q.p = 0 /\ q.st # "gone" THEN S ELSE m, p |-> q.p, h |-> q.h])
  /\ (q.st # "gone" /\ q.p > 0 => m >= thr - 20 * q.p)
Between(x, rays, st, lo(_), hi(_)) ==
  /\ x <= Mean(rays, LAMBDA q : IF q.st = st THEN hi(q) ELSE 0) + 5
  /\ x >= Mean(rays, LAMBDA q : IF q.st = st THEN lo(q) ELSE 0) - 5
Frac(x) == Ok(x) /\ x >= 0 /\ x <= S + 3
Clauses(e) ==
  IF e.error # "" THEN {"completes"} ELSE
  IF Len(e.bulk) # e.N - 1 \/ Len(e.surf) # e.N \/ \E s \in 1..e.N : Len(e.surf[s]) # e.nl[s] THEN {"shape of the results"} ELSE
  LET rays == TLCEval([i \in 1..Len(e.rays) |-> Ray(e.rays[i])])
      s0 == Start(e.m0, e.d0)
      each == TLCEval([s \in 1..e.N |-> Sum(e.surf[s])])
      total == Sum(<<e.R, e.T>> \o e.bulk \o each)
  IN
  Chk("one entry per ray", Len(rays) = e.n)
  \cup Chk("fractions defined and within [0, 1]", /\ Frac(e.R) /\ Frac(e.T) /\ Frac(e.R0) /\ \A m \in DOMAIN e.bulk : Frac(e.bulk[m])
                                                  /\ \A s \in 1..e.N : \A j \in DOMAIN e.surf[s] : Frac(e.surf[s][j]))
  \cup Chk("fractions add up to 1 up to what abandoned rays still carried", Ok(total) /\ Closed(total, rays, e.thr, 10))
  \cup Chk("initial reflection does not exceed total reflection", e.R0 <= e.R + 1)
  \cup Chk("reflected fraction is what rays can have carried out of the front", Between(e.R, rays, "R", LAMBDA q : LeastI(q, e.thr, \A m \in DOMAIN e.clear : e.clear[m]), LAMBDA q : MostI(q, e.best)))
  \cup Chk("transmitted fraction is what rays can have carried out of the back", Between(e.T, rays, "T", LAMBDA q : LeastI(q, e.thr, \A m \in DOMAIN e.clear : e.clear[m]), LAMBDA q : MostI(q, e.best)))
  \cup Chk("initial reflection is of rays which never entered the structure", Near(e.R0, Mean(rays, LAMBDA q : IF q.st = "R" /\ q.p = 0 THEN S ELSE 0), 3))
  \cup Chk("every ray took a possible route", ~e.periodic \/ \A i \in 1..Len(rays) : RouteOK(e.N, s0, rays[i], e.thr, e.best))
  \cup Chk("transparent bulk layers do not absorb", \A m \in DOMAIN e.bulk : e.clear[m] => e.bulk[m] = 0)
  \cup Chk("transparent surface layers do not absorb", \A s \in 1..e.N : \A j \in DOMAIN e.surf[s] : e.lossless[s][j] => e.surf[s][j] <= 2)
  \cup Chk("without absorption nothing is lost", (\A m \in DOMAIN e.clear : e.clear[m]) /\ (\A s \in 1..e.N : \A j \in DOMAIN e.lossless[s] : e.lossless[s][j])
           => \A i \in 1..Len(rays) : rays[i].st # "gone")
  \cup Chk("interface totals agree with their layers", \A s \in 1..e.N : Near(each[s], e.stot[s], 5))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET bad == Clauses(Trace[l]) IN \A b \in bad : PrintT(<<"FAIL", l, b>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

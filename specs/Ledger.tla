------------------------------- MODULE Ledger -------------------------------
(* What a ray-tracing calculation reports for one wavelength, and how it has   *)
(* to follow from the fates of its rays. A stack has N surfaces (0 .. N-1);    *)
(* medium 0 is the incidence, medium N the transmission medium.                *)
(* A finished ray q is                                                         *)
(*   st  "R" | "T" | "gone" (absorbed in a surface or abandoned)               *)
(*   I   intensity it left with     p  crossings of bulk layers     h  hits    *)
EXTENDS FixedPoint

Start(m0, d0) == IF d0 = 1 THEN m0 ELSE m0 - 1           \* the first surface it meets
\* crossings a ray needs at least, and their parity: each crossing leads from a surface to a neighbouring one
Least(N, s0, st) == IF st = "R" THEN s0 ELSE N - 1 - s0
Crossed(N, s0, q) == q.st = "gone" \/ (q.p >= Least(N, s0, q.st) /\ (q.p - Least(N, s0, q.st)) % 2 = 0)
RayOK(N, s0, thr, q) ==
  /\ q.I >= 0 /\ q.I <= S
  /\ q.p >= 0 /\ q.h >= 1
  /\ Crossed(N, s0, q)
  /\ q.st # "gone" => q.h >= q.p + 1                       \* a hit before, between and after the crossings
  /\ q.st = "gone" => q.h >= q.p /\ q.h >= 1               \* abandoned after a crossing, or absorbed by a hit
  /\ q.st # "gone" => (q.I >= thr \/ q.p = 0) /\ (q.p = 0 => q.I = S)

Mean(rays, f(_)) == RDiv(Sum([i \in 1..Len(rays) |-> f(rays[i])]), Len(rays))
Reported(rays, st) == Mean(rays, LAMBDA q : IF q.st = st THEN q.I ELSE 0)
Initially(rays) == Mean(rays, LAMBDA q : IF q.st = "R" /\ q.p = 0 THEN q.I ELSE 0)
Gone(rays) == Cardinality({i \in 1..Len(rays) : rays[i].st = "gone"})
\* intensity a ray that got out can have, from its crossings alone; best = the least absorbing layer's transmission
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN S ELSE Mul(x, PowI(x, k - 1))
MostI(q, best) == IF q.st = "gone" THEN 0 ELSE PowI(best, MinI(q.p, 40))
LeastI(q, thr, clear) == IF q.st = "gone" THEN 0 ELSE IF q.p = 0 \/ clear THEN S ELSE thr
\* at most thr of every abandoned ray is missing
Closed(total, rays, thr, tol) == total <= S + tol /\ total >= S - RDiv(Gone(rays) * (thr \div 10), Len(rays)) * 10 - tol - 10
=============================================================================

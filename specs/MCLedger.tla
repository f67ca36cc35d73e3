------------------------------ MODULE MCLedger ------------------------------
(* Design check: rays of the RayStack specification are traced one after the   *)
(* other with arbitrary outcomes, and retired into the ledger.                *)

EXTENDS Ledger, RayStack, TLC, Json
CONSTANTS N, Tr, Thr, MaxRays, MaxHits
TrA == <<1000000, 500000, 800000, 700000, 1000000>>
VARIABLES c, r, rays, bulk, surf
vars == <<c, r, rays, bulk, surf>>
Zeros(n) == [x \in 1..n |-> 0]
Init == \E st \in Starts(N) :
        /\ c = [N |-> N, m0 |-> st[1], d0 |-> st[2], thr |-> Thr, tr |-> [x \in 1..(N + 1) |-> IF x = 1 \/ x = N + 1 THEN S ELSE Tr[x]]]
        /\ r = RayInit(c) /\ rays = <<>> /\ bulk = Zeros(N + 1) /\ surf = Zeros(N)
Hit == r.st = "run" /\ r.hits < MaxHits /\ \E o \in {"R", "T", "A"} : r' = Step(c, r, o) /\ UNCHANGED <<c, rays, bulk, surf>>
Retire == /\ r.st # "run"
          /\ rays' = Append(rays, [st |-> IF r.st \in {"R", "T"} THEN r.st ELSE "gone", I |-> IF r.st \in {"R", "T"} THEN r.I ELSE 0, p |-> r.passes, h |-> r.hits])
          /\ bulk' = [m \in 1..(N + 1) |-> bulk[m] + r.A[m]]
          /\ surf' = [s \in 1..N |-> surf[s] + IF r.st = "absorbed" /\ r.at = s THEN r.I ELSE 0]
          /\ r' = IF Len(rays) + 1 < MaxRays THEN RayInit(c) ELSE [r EXCEPT !.st = "done"]
          /\ UNCHANGED c
Next == IF r.st = "done" THEN FALSE ELSE Hit \/ Retire

n == Len(rays)
s0 == Start(c.m0, c.d0)
Total == Sum(<<Reported(rays, "R"), Reported(rays, "T")>>) + RDiv(Sum(bulk) + Sum(surf), n)
FatesOK == \A i \in 1..n : RayOK(N, s0, Thr, rays[i])
Closes == n > 0 => Closed(Total, rays, Thr, 4)
\* the bound on what may be missing is not vacuous: without abandoned rays nothing is
Exact == (n > 0 /\ Gone(rays) = 0) => Near(Total, S, 4)
InitialLess == n > 0 => Initially(rays) <= Reported(rays, "R")
OnlyBulk == bulk[1] = 0 /\ bulk[N + 1] = 0
=============================================================================

-------------------------------- MODULE MCRay -------------------------------
(* Exhaustive design model: every outcome script (determined lazily, when a   *)
(* surface side is first met), every start.  Terminal states are printed as   *)
(* behaviours to be replayed into the real code.                              *)
EXTENDS RayStack, TLC, Json
CONSTANTS MaxN, Outcomes, Trs, Thr, EmitOn
Trs1 == <<<<S, 600000, 700000, 650000, 550000, S>>>>
Trs3 == <<<<S, 600000, 700000, 500000, 650000, S>>, <<S, 900000, 300000, 800000, 400000, S>>, <<S, 400000, 850000, 900000, 300000, S>>>>
VARIABLES c, r, route
vars == <<c, r, route>>

Init == \E N \in 1..MaxN : \E st \in Starts(N) : \E k \in DOMAIN Trs :
          /\ c = [N |-> N, m0 |-> st[1], d0 |-> st[2], thr |-> Thr,
                  tr |-> [x \in 1..(N + 1) |-> IF x = 1 \/ x = N + 1 THEN S ELSE Trs[k][x]],
                  k |-> k, sc |-> [x \in 1..N |-> <<"-", "-">>]]
          /\ r = RayInit(c)
          /\ route = <<>>

Open == LET o == c.sc[SurfOf(r) + 1][SideOf(r)] IN IF o = "-" THEN Outcomes ELSE {o}

Hit(o) == /\ r.st = "run"
          /\ o \in Open
          /\ c' = [c EXCEPT !.sc[SurfOf(r) + 1][SideOf(r)] = o]
          /\ r' = Step(c, r, o)
          /\ route' = Append(route, <<SurfOf(r), SideOf(r), o, r'.m>>)
Next == \E o \in Outcomes : Hit(o)

TypeOK == /\ r.st = "run" => SurfOf(r) \in 0..(c.N - 1)
          /\ r.m \in 0..c.N /\ r.d \in {1, -1}

\* C01: nothing is created or lost except what an abandoned ray still carried
Ledger == LET bulk == Sum([x \in 1..(c.N + 1) |-> r.A[x]])
          IN r.I + bulk = S /\ (r.st = "lost" => r.I < c.thr) /\ r.I >= 0
\* C02: a ray ends where its route says
Booking == /\ (r.st = "T" => r.m = c.N /\ r.d = 1)
           /\ (r.st = "R" => r.m = 0 /\ r.d = -1)
           /\ (r.st = "absorbed" => r.at \in 1..c.N /\ r.by \notin {"R", "T"})
           /\ r.hits = Len(route)
           /\ (r.st = "R" /\ r.passes = 0 => Len(route) = 1)
\* the surfaces are met in order: consecutive hits are adjacent, or the same medium is crossed
InOrder == \A i \in 1..(Len(route) - 1) :
             LET a == route[i] b == route[i + 1] IN
             /\ b[1] - a[1] \in {1, -1}
             /\ a[4] = (IF b[2] = 1 THEN b[1] ELSE b[1] + 1)
\* C03: only layers that were crossed absorb, and as often as they were crossed
OnlyCrossed == /\ r.A[1] = 0 /\ r.A[c.N + 1] = 0
               /\ \A x \in 1..(c.N + 1) : r.A[x] > 0 => \E i \in 1..Len(route) : route[i][4] = x - 1
               /\ r.passes <= Len(route)
\* every crossing lost exactly the fraction of its layer, in a layer the ray was in
Crossings == /\ r.passes = Len(r.cross)
             /\ \A m \in 0..c.N : r.A[m + 1] = Sum([i \in 1..Len(r.cross) |->
                    IF r.cross[i][1] = m THEN r.cross[i][3] - Mul(r.cross[i][3], c.tr[m + 1]) ELSE 0])
             /\ \A i \in 1..(Len(r.cross) - 1) : r.cross[i + 1][3] = Mul(r.cross[i][3], c.tr[r.cross[i][1] + 1])
Monotone == [][r'.I <= r.I]_vars
Emit == \/ ~EmitOn \/ r.st = "run"
        \/ PrintT(<<"BEH", ToJson([N |-> c.N, m0 |-> c.m0, d0 |-> c.d0, sc |-> c.sc, st |-> r.st, hits |-> r.hits])>>)
=============================================================================

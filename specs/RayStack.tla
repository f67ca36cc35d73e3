------------------------------ MODULE RayStack ------------------------------
(* A ray in a stack of N surfaces and N+1 media (0 .. N).  Medium 0 is the    *)
(* incidence medium, medium N the transmission medium; surface s (0-based)    *)
(* separates media s and s+1.  The stack is described by a record c:          *)
(*   N, m0, d0     number of surfaces, initial medium and direction (1 down)  *)
(*   sc[s+1][side] outcome at a surface for light from above (side 1) or      *)
(*                 below (side 2): "R", "T", or "A.." (absorbed there)        *)
(*   tr[m+1]       fraction of the intensity left after one crossing          *)
(*   thr           intensity below which a ray is abandoned                   *)
(* The actions below are used both by the exhaustive design model (MCRay) and *)
(* by the conformance check of recorded runs (RayTrace).                      *)
EXTENDS FixedPoint

RayInit(c) == [m |-> c.m0, d |-> c.d0, I |-> S, A |-> [x \in 1..(c.N + 1) |-> 0],
               passes |-> 0, hits |-> 0, st |-> "run", at |-> 0, by |-> "-", edge |-> Bad,
               cross |-> <<>>]                                  \* crossings: medium, direction, intensity at entry

SurfOf(r) == IF r.d = 1 THEN r.m ELSE r.m - 1            \* 0-based surface the ray meets next
SideOf(r) == IF r.d = 1 THEN 1 ELSE 2

Reflect(r)   == [r EXCEPT !.d = -r.d, !.hits = @ + 1]
Transmit(r)  == [r EXCEPT !.m = @ + r.d, !.hits = @ + 1]
AbsorbBy(r, o) == [r EXCEPT !.st = "absorbed", !.at = SurfOf(r) + 1, !.by = o, !.hits = @ + 1]

\* after a reflection or transmission: leave the stack, or cross the layer the ray is in
Travel(c, r) ==
  IF r.d = 1 /\ r.m = c.N THEN [r EXCEPT !.st = "T"]
  ELSE IF r.d = -1 /\ r.m = 0 THEN [r EXCEPT !.st = "R"]
  ELSE LET J == Mul(r.I, c.tr[r.m + 1])
       IN [r EXCEPT !.I = J, !.A[r.m + 1] = @ + (r.I - J), !.passes = @ + 1,
                    !.cross = Append(@, <<r.m, r.d, r.I>>),
                    !.edge = MinI(@, Abs(J - c.thr)),
                    !.st = IF J < c.thr THEN "lost" ELSE "run"]

Step(c, r, o) == IF o = "R" THEN Travel(c, Reflect(r))
                 ELSE IF o = "T" THEN Travel(c, Transmit(r))
                 ELSE AbsorbBy(r, o)

Starts(N) == {<<0, 1>>} \cup {<<m, d>> : m \in 1..(N - 1), d \in {1, -1}} \cup {<<N, -1>>}

\* run a completely scripted ray to its end (at most k hits)
RECURSIVE RunRay(_, _, _)
RunRay(c, r, k) == IF r.st # "run" \/ k = 0 THEN r
                   ELSE RunRay(c, Step(c, r, c.sc[SurfOf(r) + 1][SideOf(r)]), k - 1)
=============================================================================

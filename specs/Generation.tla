------------------------------ MODULE Generation -----------------------------
(* The depth axis of a structure: parts one below the other, each sampled on   *)
(* its own grid which starts at the top of the part. A part lists its layers   *)
(* [w |-> thickness, req |-> whether a profile was requested]. Lengths are in   *)
(* units in which the layers of a finely sampled part are multiples of its step.*)
EXTENDS FixedPoint, TLC
Thick(p) == Sum([i \in DOMAIN p.lay |-> p.lay[i].w])
Points(p) == -((-Thick(p)) \div p.h)
Top(ps, k) == Sum([i \in 1..(k - 1) |-> Thick(ps[i])])
LayerTop(ps, k, j) == Top(ps, k) + Sum([i \in 1..(j - 1) |-> ps[k].lay[i].w])
\* all sample positions, from the top
Positions(ps) == FoldLeft(LAMBDA acc, k : acc \o [i \in 1..Points(ps[k]) |-> Top(ps, k) + (i - 1) * ps[k].h], <<>>, [k \in DOMAIN ps |-> k])
\* the part and layer a position lies in (a boundary belongs to the layer below it)
At(ps, x) == CHOOSE kj \in UNION {{<<k, j>> : j \in DOMAIN ps[k].lay} : k \in DOMAIN ps} :
               /\ LayerTop(ps, kj[1], kj[2]) <= x /\ x < LayerTop(ps, kj[1], kj[2]) + ps[kj[1]].lay[kj[2]].w
Requested(ps, x) == LET kj == At(ps, x) IN ps[kj[1]].lay[kj[2]].req
\* profiles arrive for every part separately, only for its requested layers, in order from the top: where a sample of a
\* layer is found among them
Stored(p, j) == Sum([i \in 1..(j - 1) |-> IF p.lay[i].req THEN p.lay[i].w \div p.h ELSE 0])
=============================================================================

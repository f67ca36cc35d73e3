------------------------------- MODULE Texture ------------------------------
(* What it means for a set of oriented triangles to be a surface texture:    *)
(* pts is a sequence of <<x, y, z>>, tris a sequence of index triples        *)
(* (1-based), box = <<x0, x1, y0, y1>> the unit cell.                        *)
EXTENDS Surface, TLC
\* twice the (signed) projected area, in fixed point of the unit-cell scale
Area2(p, q, r) == Sub(Mul(Sub(q[1], p[1]), Sub(r[2], p[2])), Mul(Sub(r[1], p[1]), Sub(q[2], p[2])))
EdgesOf(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
DirectedEdges(tris) == UNION {EdgesOf(tris[k]) : k \in 1..Len(tris)}
\* edges of only one triangle
Boundary(E) == {e \in E : <<e[2], e[1]>> \notin E}
OnSide(p, q, box, tol) == \/ (Near(p[1], box[1], tol) /\ Near(q[1], box[1], tol))
                          \/ (Near(p[1], box[2], tol) /\ Near(q[1], box[2], tol))
                          \/ (Near(p[2], box[3], tol) /\ Near(q[2], box[3], tol))
                          \/ (Near(p[2], box[4], tol) /\ Near(q[2], box[4], tol))
\* orientation is consistent and no edge is used twice in the same direction
Oriented(tris, E) == Cardinality(E) = 3 * Len(tris)
\* exactly one triangle above (almost) every point of the unit cell: consistently oriented, bounded only by the sides of the
\* cell, and with the total area of the cell
CoversOnce(pts, tris, box, tol) ==
  LET E == TLCEval(DirectedEdges(tris))
      area == TLCEval([k \in 1..Len(tris) |-> Area2(pts[tris[k][1]], pts[tris[k][2]], pts[tris[k][3]])])
  IN /\ Oriented(tris, E)
     /\ \A e \in Boundary(E) : OnSide(pts[e[1]], pts[e[2]], box, tol)
     /\ Near(FoldLeft(LAMBDA a, k : Add(a, k), 0, area) , 2 * Mul(box[2] - box[1], box[4] - box[3]), 20 + 4 * Len(tris))
     /\ \A k \in 1..Len(tris) : area[k] >= -2
=============================================================================

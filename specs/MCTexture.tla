------------------------------ MODULE MCTexture -----------------------------
(* Meta-check: for every set of up to MaxT triangles over a small point set  *)
(* (corners, centre and side midpoint of a square), the criterion CoversOnce *)
(* is equivalent to every sample point lying in exactly one triangle and     *)
(* all triangles being counter-clockwise.                                    *)
EXTENDS Texture
CONSTANTS MaxT, Full
VARIABLES ts, done
P4 == <<<<0, 0, 0>>, <<S, 0, 0>>, <<S, S, 0>>, <<0, S, 0>>, <<S \div 2, S \div 2, 0>>>>
P5 == P4 \o <<<<S \div 2, 0, 0>>>>
Pts == IF Full THEN P5 ELSE P4
Box == <<0, S, 0, S>>
Tri == {t \in (1..Len(Pts)) \X (1..Len(Pts)) \X (1..Len(Pts)) : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3]
        /\ Area2(Pts[t[1]], Pts[t[2]], Pts[t[3]]) # 0}
Init == ts = {} /\ done = FALSE
Next == /\ Cardinality(ts) < MaxT /\ \E t \in Tri \ ts : ts' = ts \cup {t}
        /\ UNCHANGED done
\* generic sample points
Samples == {<<100003 + 200007 * i + 7919 * j, 90001 + 190003 * j + 5501 * i, 0>> : i \in 0..4, j \in 0..4}
Inside(q, t) == LET a == Area2(Pts[t[1]], Pts[t[2]], q)  b == Area2(Pts[t[2]], Pts[t[3]], q)  c == Area2(Pts[t[3]], Pts[t[1]], q)
                IN (a > 0 /\ b > 0 /\ c > 0) \/ (a < 0 /\ b < 0 /\ c < 0)
\* conforming triangulation: no corner of one triangle inside a side of another (the criterion demands it, a cover does not)
Hanging == \E t \in ts, e \in {<<1, 2>>, <<2, 3>>, <<3, 1>>}, p \in 1..Len(Pts) :
             LET a == Pts[t[e[1]]]  b == Pts[t[e[2]]] IN
             p # t[e[1]] /\ p # t[e[2]] /\ (\E u \in ts : p \in {u[1], u[2], u[3]}) /\ Area2(a, b, Pts[p]) = 0
             /\ ((a[1] # b[1] /\ Pts[p][1] > MinI(a[1], b[1]) /\ Pts[p][1] < MaxI(a[1], b[1])) \/ (a[2] # b[2] /\ Pts[p][2] > MinI(a[2], b[2]) /\ Pts[p][2] < MaxI(a[2], b[2])))
CriterionRight ==
  ts = {} \/
  LET once == /\ \A t \in ts : Area2(Pts[t[1]], Pts[t[2]], Pts[t[3]]) > 0
              /\ \A q \in Samples : Cardinality({t \in ts : Inside(q, t)}) = 1
      crit == CoversOnce(Pts, SetToSeq(ts), Box, 1)
  IN (crit => once) /\ (once /\ ~Hanging => crit)
=============================================================================

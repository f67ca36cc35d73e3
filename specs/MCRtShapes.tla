----------------------------- MODULE MCRtShapes -----------------------------
(* Classes of ray-traced structures: per surface its texture and its optics    *)
(* (F Fresnel, L layers absorbing, N layers not absorbing), per bulk layer     *)
(* whether it is transparent (t), weakly (w) or strongly (o) absorbing.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, Textures, Optics, Bulks
VARIABLES surf, bulk
Init == surf = << >> /\ bulk = << >>
AddSurface == /\ Len(surf) < MaxN /\ Len(surf) = Len(bulk)
              /\ \E t \in Textures, o \in Optics : surf' = Append(surf, <<t, o>>)
              /\ UNCHANGED bulk
AddBulk == /\ Len(surf) = Len(bulk) + 1 /\ Len(surf) < MaxN
           /\ \E b \in Bulks : bulk' = Append(bulk, b)
           /\ UNCHANGED surf
Next == AddSurface \/ AddBulk
Alternate == Len(surf) - Len(bulk) \in {0, 1}
Emit == (Len(surf) = Len(bulk) + 1) => PrintT(<<"BEH", ToJson([surf |-> surf, bulk |-> bulk])>>)
=============================================================================

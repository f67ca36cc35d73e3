------------------------------ MODULE MCSurface -----------------------------
(* All histories of shifting, refreshing and copying, up to MaxLen steps and *)
(* MaxObj objects.                                                           *)
EXTENDS Surface, TLC, Json
CONSTANTS MaxLen, MaxObj, Amounts, EmitOn
A2 == {7, -3}
A3 == {7, -3, 1}
VARIABLES objs, hist, moved
Init == objs = <<[base |-> 0, h |-> 1, H |-> {1, 2, 5}]>> /\ hist = <<>> /\ moved = <<0>>
Do(op) == Len(hist) < MaxLen /\ hist' = Append(hist, op)
Next ==
  \/ \E i \in 1..Len(objs), dz \in Amounts : /\ Do([op |-> "shift", i |-> i, dz |-> dz])
        /\ objs' = [objs EXCEPT ![i] = Shifted(@, dz)] /\ moved' = [moved EXCEPT ![i] = @ + dz]
  \/ \E i \in 1..Len(objs) : /\ Do([op |-> "refresh", i |-> i, dz |-> 0])
        /\ \E h \in Draws(objs[i]) : objs' = [objs EXCEPT ![i] = Drawn(@, h)]
        /\ UNCHANGED moved
  \/ \E i \in 1..Len(objs) : /\ Len(objs) < MaxObj /\ Do([op |-> "copy", i |-> i, dz |-> 0])
        /\ objs' = Append(objs, objs[i]) /\ moved' = Append(moved, moved[i])
\* the base of an object is where the shifts applied to it (and to the object it was copied from, before) put it,
\* whatever else happened
BaseFollowsShifts == \A i \in 1..Len(objs) : objs[i].base = -moved[i]
HeightsInDistribution == \A i \in 1..Len(objs) : objs[i].h \in objs[i].H
\* operations act on one object only
Independent == [][\A i \in 1..Len(objs) : objs'[i] # objs[i] => hist'[Len(hist')].i = i]_<<objs, hist, moved>>
Emit == ~EmitOn \/ Len(hist) # MaxLen \/ PrintT(<<"BEH", ToJson(hist)>>)
View == <<hist, objs>>
=============================================================================

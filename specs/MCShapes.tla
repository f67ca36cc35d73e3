----------------------------- MODULE MCShapes -----------------------------
(* Every shape of a multilayer calculation: the classes of the media (from the *)
(* incidence side), which fixes what kind of stack the real code is given.     *)
(*   v vacuum   g transparent   x absorbing half space                         *)
(*   d transparent   a absorbing   m metal   z of no thickness  (coherent)     *)
(*   W weakly absorbing   D transparent  (thick, incoherent)                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxL, Classes
VARIABLES a, ls, b
Init == a \in {"v", "g"} /\ b \in {"v", "g", "x"} /\ ls = << >>
Next == /\ Len(ls) < MaxL /\ \E c \in Classes : ls' = Append(ls, c)
        /\ UNCHANGED <<a, b>>
Bounded == Len(ls) <= MaxL
Emit == PrintT(<<"BEH", ToJson([a |-> a, ls |-> ls, b |-> b])>>)
=============================================================================

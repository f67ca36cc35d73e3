------------------------------ MODULE MCGrating -----------------------------
(* All sequences of up to MaxLen re-descriptions of a structure of NL layers.  *)
EXTENDS Grating, TLC, Json
CONSTANTS NL, MaxLen, EmitOn, Full
VARIABLES d, hist
Init == d = Plain(NL) /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops(d) : d' = Apply(d, op) /\ hist' = Append(hist, [op |-> op.op, d |-> d'])
Unchanged == Physics(d, NL) = Physics(Plain(NL), NL)
Square == {<<r, m>> : r \in 0..3, m \in BOOLEAN}
Group == Full => /\ \A g \in Square, h \in Square, k \in Square : After(g, After(h, k)) = After(After(g, h), k)
                 /\ \A g \in Square : After(g, Undo(g)) = Same /\ After(Undo(g), g) = Same /\ After(g, Same) = g
Emit == (EmitOn /\ Len(hist) = MaxLen) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================

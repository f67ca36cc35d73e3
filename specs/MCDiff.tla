------------------------------- MODULE MCDiff -------------------------------
(* Orders of a 3 x 3 block are collected one by one, in every subset, for     *)
(* several lattices; the groups must always partition the collected orders.   *)
EXTENDS Diffraction, TLC, Json
CONSTANTS Grams, EmitOn
G6 == {<<4, 0, 4>>, <<4, 0, 9>>, <<2, 1, 2>>, <<2, -1, 2>>, <<4, 1, 9>>, <<1, 0, 4>>}
G2 == {<<4, 0, 4>>, <<2, 1, 2>>}
VARIABLES g, os, nxt
Block == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>>>
Init == g \in Grams /\ os = <<>> /\ nxt = 1
Next == /\ nxt <= Len(Block) /\ nxt' = nxt + 1 /\ UNCHANGED g
        /\ \/ os' = os
           \/ os' = Append(os, Block[nxt])
           \/ os' = <<Block[nxt]>> \o os
Partition == /\ UNION {Members(g, os, q) : q \in Values(g, os)} = 1..Len(os)
             /\ \A q, p \in Values(g, os) : q # p => Members(g, os, q) \cap Members(g, os, p) = {}
Inversion == \A i \in 1..Len(os) : Q(g, os[i]) = Q(g, <<-os[i][1], -os[i][2]>>) /\ (Q(g, os[i]) = 0) = (os[i] = <<0, 0>>)
Emit == ~EmitOn \/ nxt <= Len(Block) \/ os = <<>> \/ PrintT(<<"BEH", ToJson([g |-> g, os |-> os])>>)
=============================================================================
